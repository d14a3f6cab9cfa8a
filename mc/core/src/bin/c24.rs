//! C24: the tables handed out by planners hold the values they are documented to hold, for every
//! length and whatever was asked for before.
use kmc_core::common::*;
use kofft::dst::DstPlanner;
use kofft::rfft::*;

pub const DEF: CheckDef = CheckDef {
    id: "C24",
    level: Level::Exploration,
    rule: "one case = (element type, kind of table, length), every entry compared; 'history' cases explore every sequence of requests up to the depth on one planner, keeping every table handed out",
    assumptions: &["table entries evaluated in f64 with exactly reduced angles (f64 entries are compared within eight units in the last place)"],
    hang_s: 120,
    run,
};

/// exp(-i pi num / den)
fn half_root(num: u128, den: u128) -> C {
    refs::root((num % (2 * den)) as usize, (2 * den) as usize)
}
fn table<T: Num>(got: &[Complex<T>], len: usize, at: impl Fn(usize) -> C) -> Result<bool, String> {
    let want: Vec<C> = (0..len).map(at).collect();
    close(&vc(got), &want, 12.0 * T::EPS)?;
    Ok(len > 0)
}
fn stage<T: Num>(p: &mut FftPlanner<T>, n: usize) -> Result<bool, String> {
    table(&p.get_twiddles(n), n / 2, |k| refs::root(k, n))
}
#[cfg(feature = "std")]
fn chirp<T: Num>(p: &mut FftPlanner<T>, n: usize) -> Result<bool, String> {
    let (c, b) = p.get_bluestein(n);
    table(&c, n, |k| half_root((k * k) as u128, n as u128)).map_err(|m| format!("chirp: {m}"))?;
    let m = (2 * n - 1).next_power_of_two();
    // The kernel: conjugated chirp, wrapped around, zero in between.
    let mut k = vec![(0.0, 0.0); m];
    for i in 0..n {
        let (re, im) = half_root((i * i) as u128, n as u128);
        k[i] = (re, -im);
        k[(m - i) % m] = (re, -im);
    }
    close(&vc(&b), &refs::fft(&k), fft_tol::<T>(m) * refs::norm2(&k) + 8.0 * T::EPS * (m as f64).sqrt()).map_err(|m| format!("kernel spectrum: {m}"))?;
    Ok(true)
}
fn lengths<T: Num + RealFftNum>(cx: &Cx, n: usize) {
    cx.case(|| format!("{}/stage/n={n}", T::NAME), || stage(&mut FftPlanner::<T>::new(), n));
    #[cfg(feature = "std")]
    if n > 0 {
        cx.case(|| format!("{}/bluestein/n={n}", T::NAME), || chirp(&mut FftPlanner::<T>::new(), n));
    }
    cx.case(
        || format!("{}/strategy/n={n}", T::NAME),
        || {
            let s = FftPlanner::<T>::new().plan_strategy(n);
            let want = if n > 1 && n.is_power_of_two() { FftStrategy::SplitRadix } else { FftStrategy::Auto };
            if s != want {
                return Err(format!("{s:?}"));
            }
            Ok(true)
        },
    );
    cx.case(
        || format!("{}/real/n={n}", T::NAME),
        || {
            let mut p = RfftPlanner::<T>::new();
            table(&p.get_twiddles(n), n, |k| half_root(k as u128, n as u128)).map_err(|m| format!("twiddles: {m}"))?;
            table(&p.get_pack_twiddles(n), n, |k| half_root(k as u128, n as u128)).map_err(|m| format!("pack twiddles: {m}"))
        },
    );
    cx.case(
        || format!("{}/dst/n={n}", T::NAME),
        || {
            let mut p = DstPlanner::<T>::new();
            // sin(pi (2i + off) / 2n) = -im of the root of order 4n
            let t = |off: usize| -> Vec<f64> { (0..n).map(|i| -refs::root(2 * i + off, 4 * n.max(1)).1).collect() };
            let tol = 8.0 * T::EPS;
            close_r(&vr(p.plan_dst2(n)), &t(1), tol).map_err(|m| format!("II: {m}"))?;
            close_r(&vr(p.plan_dst3(n)), &t(0), tol).map_err(|m| format!("III: {m}"))?;
            close_r(&vr(p.plan_dst4(n)), &t(1), tol).map_err(|m| format!("IV: {m}"))?;
            if p.scratch(n).len() != n || p.scratch(n / 2).len() != n / 2 || p.scratch(n).len() != n {
                return Err("scratch buffer of another length".into());
            }
            Ok(n > 0)
        },
    );
}
#[cfg(feature = "std")]
fn buffer(cx: &Cx, n: usize) {
    cx.case(
        || format!("f32/buffer/n={n}"),
        || {
            let b = TwiddleFactorBuffer::new(n);
            if b.n != n {
                return Err(format!("describes length {}", b.n));
            }
            table(&b.twiddles, n / 2, |k| refs::root(k, n))?;
            for k in 0..n / 2 {
                if b.get(k) != b.twiddles[k] {
                    return Err(format!("get({k}) is not entry {k}"));
                }
            }
            Ok(n > 1)
        },
    );
}
/// An engine built on a planner that has already been used.
fn warmed<T: Num>(cx: &Cx, lens: &[usize]) {
    for a in lens {
        for b in lens {
            cx.case(
                || format!("{}/with_planner/warm={a}/n={b}", T::NAME),
                || {
                    let mut p = FftPlanner::<T>::new();
                    p.get_twiddles(*a);
                    #[cfg(feature = "std")]
                    p.get_bluestein(*a);
                    p.get_twiddles(a + b);
                    let f = ScalarFftImpl::with_planner(p);
                    let x = cv::<T>(&refs::cprobe(*b, 240));
                    let (mut u, mut v) = (x.clone(), x);
                    let r = f.fft(&mut u);
                    if r != ScalarFftImpl::<T>::default().fft(&mut v) {
                        return Err("differs from an engine of its own".into());
                    }
                    close(&vc(&u), &vc(&v), fft_tol::<T>(*b) * refs::norm2(&vc(&v)).max(1.0)).map_err(|m| format!("differs from an engine of its own: {m}"))?;
                    Ok(true)
                },
            );
        }
    }
}
/// One planner asked for the strategy of every length, upwards, downwards and alternating between
/// the ends.
fn walks<T: Num + RealFftNum>(cx: &Cx, n: usize) {
    let up: Vec<usize> = (1..=n).collect();
    let down: Vec<usize> = (1..=n).rev().collect();
    let zigzag: Vec<usize> = up.iter().zip(&down).flat_map(|(a, b)| [*a, *b]).collect();
    for (name, walk) in [("up", up), ("down", down), ("zigzag", zigzag)] {
        cx.case(
            || format!("{}/strategies/{name}", T::NAME),
            || {
                let mut p = FftPlanner::<T>::new();
                for n in &walk {
                    let want = if *n > 1 && n.is_power_of_two() { FftStrategy::SplitRadix } else { FftStrategy::Auto };
                    let s = p.plan_strategy(*n);
                    if s != want {
                        return Err(format!("{s:?} for length {n}"));
                    }
                }
                cx.transitions(walk.len() as u64);
                Ok(true)
            },
        );
    }
}
fn histories<T: Num + RealFftNum>(cx: &Cx, lens: &[usize], depth: usize) {
    // Requests: (kind, length).
    let kinds = if cfg!(feature = "std") { 4 } else { 3 };
    let total = (lens.len() * kinds).pow(depth as u32);
    for code in 0..total {
        let mut c = code;
        let seq: Vec<(usize, usize)> = (0..depth)
            .map(|_| {
                let k = c % kinds;
                c /= kinds;
                let l = lens[c % lens.len()];
                c /= lens.len();
                (k, l)
            })
            .collect();
        cx.case(
            || format!("{}/history={seq:?}", T::NAME),
            || {
                let mut p = FftPlanner::<T>::new();
                let mut r = RfftPlanner::<T>::new();
                let mut held = vec![];
                for (k, n) in &seq {
                    let get = |p: &mut FftPlanner<T>, r: &mut RfftPlanner<T>| match k {
                        0 => p.get_twiddles(*n).to_vec(),
                        1 => r.get_twiddles(*n).to_vec(),
                        2 => r.get_pack_twiddles(*n).to_vec(),
                        #[cfg(feature = "std")]
                        _ => {
                            let (a, b) = p.get_bluestein(*n);
                            [a.to_vec(), b.to_vec()].concat()
                        }
                        #[cfg(not(feature = "std"))]
                        _ => vec![],
                    };
                    let got = get(&mut p, &mut r);
                    let want = get(&mut FftPlanner::new(), &mut RfftPlanner::new());
                    // The same values; the last bit may depend on the table it was derived from.
                    close(&vc(&got), &vc(&want), fft_tol::<T>((*n).max(2)) * refs::norm2(&vc(&want)).max(1.0) * if *k == 3 { 1.0 } else { 1.0 / (got.len() as f64).sqrt().max(1.0) })
                        .map_err(|m| format!("request {k} for length {n} depends on what was asked before: {m}"))?;
                    if p.plan_strategy(*n) != FftPlanner::<T>::new().plan_strategy(*n) {
                        return Err(format!("the strategy for length {n} depends on what was asked before"));
                    }
                    if *k == 0 {
                        held.push((p.get_twiddles(*n), got));
                    }
                }
                if held.iter().any(|(a, b)| !bits_eq(a, b)) {
                    return Err("a table handed out earlier has changed".into());
                }
                Ok(true)
            },
        );
    }
}

fn run(eng: &Eng) {
    let (n1, depth) = (eng.pick3(40, 2000, 5000), eng.pick3(2, 4, 5));
    let mut lens: Vec<usize> = (0..=n1).collect();
    lens.extend(kmc_core::entries::extra_lengths(n1, eng.pick3(300, 140_000, 1 << 20)));
    let mut units: Vec<Unit> = vec![];
    for n in lens {
        units.push(Box::new(move |cx| {
            lengths::<f32>(cx, n);
            lengths::<f64>(cx, n);
            #[cfg(feature = "std")]
            buffer(cx, n);
        }));
    }
    units.push(Box::new(|cx| warmed::<f32>(cx, &[1, 2, 4, 5, 8, 16, 30, 32, 64, 100])));
    units.push(Box::new(|cx| warmed::<f64>(cx, &[1, 2, 4, 5, 8, 16, 30, 32, 64, 100])));
    units.push(Box::new(|cx| warmed::<W>(cx, &[1, 2, 4, 5, 8, 16, 30, 32, 64])));
    let pairs: &'static [usize] = (1..=eng.pick3(24, 64, 128)).chain([32, 36, 48, 60, 64, 72, 96, 100, 128, 200, 256]).collect::<Vec<_>>().leak();
    let strategies = eng.pick3(3000, 70_000, 1_100_000);
    units.push(Box::new(move |cx| walks::<f32>(cx, strategies)));
    units.push(Box::new(move |cx| walks::<f64>(cx, strategies)));
    units.push(Box::new(move |cx| histories::<f32>(cx, pairs, 2)));
    units.push(Box::new(move |cx| histories::<f64>(cx, pairs, 2)));
    units.push(Box::new(move |cx| histories::<f32>(cx, &[1, 2, 3, 8, 16, 17], depth)));
    units.push(Box::new(move |cx| histories::<f64>(cx, &[1, 2, 3, 8, 16, 17], depth.min(3))));
    eng.run_units(units);
    if std::env::var("KMC_STAT").is_ok() {
        eprintln!("max deviation/tolerance = {}", stat_max());
    }
}

fn main() {
    kmc_engine::main_with(&[DEF]);
}

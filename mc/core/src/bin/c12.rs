//! C12: the sine transforms I-IV and the Hartley transform (direct, batched, stack-only, planner
//! tables) are the transforms of their definitions and invert each other up to scale.
use kmc_core::common::*;
use kmc_core::trig::*;
use kofft::dst::*;
use kofft::hartley;

pub const DEF: CheckDef = CheckDef {
    id: "C12",
    level: Level::Exploration,
    rule: "one case = (transform, form, length, family); 'basis' explores every unit impulse, which determines the linear map completely; 'tables' every sequence of planner requests up to depth 4",
    assumptions: &["matrices evaluated in f64 with exactly reduced angles", "tolerance proportional to the length: the direct forms evaluate their angles in single precision"],
    hang_s: 120,
    run,
};

fn s1(n: usize, k: usize, i: usize) -> f64 {
    sinpi((i + 1) * (k + 1), n + 1)
}
fn s2(n: usize, k: usize, i: usize) -> f64 {
    sinpi((2 * i + 1) * (k + 1), 2 * n)
}
fn s3(n: usize, k: usize, i: usize) -> f64 {
    if i == n - 1 {
        if k % 2 == 0 { 0.5 } else { -0.5 }
    } else {
        sinpi((2 * k + 1) * (i + 1), 2 * n)
    }
}
fn s4(n: usize, k: usize, i: usize) -> f64 {
    sinpi((2 * i + 1) * (2 * k + 1), 4 * n)
}
fn h(n: usize, k: usize, i: usize) -> f64 {
    let r = refs::root(i * k, n);
    r.0 - r.1
}
fn batched(x: &[f32], f: fn(&mut [Vec<f32>])) -> Result<Vec<f32>, String> {
    let mut b = vec![x.to_vec(), vec![1.0, -2.0, 0.5], x.to_vec(), vec![]];
    f(&mut b);
    if b[0] != b[2] || b[1].len() != 3 || !b[3].is_empty() {
        return Err("the rows of a batch are not transformed alike".into());
    }
    Ok(b.swap_remove(0))
}
const MAPS: [Map; 15] = [
    ("dst1", s1, |x| Ok(dst1(x))),
    ("dst2", s2, |x| Ok(dst2(x))),
    ("dst3", s3, |x| Ok(dst3(x))),
    ("dst4", s4, |x| Ok(dst4(x))),
    ("dht", h, |x| Ok(hartley::dht(x))),
    ("batch1", s1, |x| batched(x, batch_i)),
    ("batch2", s2, |x| batched(x, batch_ii)),
    ("batch3", s3, |x| batched(x, batch_iii)),
    ("batch4", s4, |x| batched(x, batch_iv)),
    ("batch-dht", h, |x| batched(x, hartley::batch)),
    ("channels1", s1, |x| batched(x, multi_channel_i)),
    ("channels2", s2, |x| batched(x, multi_channel_ii)),
    ("channels3", s3, |x| batched(x, multi_channel_iii)),
    ("channels4", s4, |x| batched(x, multi_channel_iv)),
    ("channels-dht", h, |x| batched(x, hartley::multi_channel)),
];
macro_rules! stack {
    ($cx:expr, $($n:literal),*) => {{$(
        {
            const MAPS: [Map; 4] = [
                ("stack2", s2, |x| {
                    let mut o = [f32::NAN; $n];
                    dst2_inplace_stack::<$n>(x.try_into().unwrap(), &mut o).map_err(e)?;
                    Ok(o.to_vec())
                }),
                ("stack2-fft", s2, |x| {
                    let mut o = [f32::NAN; $n];
                    dst2_inplace_stack_fft::<$n>(x.try_into().unwrap(), &mut o).map_err(e)?;
                    Ok(o.to_vec())
                }),
                ("stack3-fft", s3, |x| {
                    let mut o = [f32::NAN; $n];
                    dst3_inplace_stack_fft::<$n>(x.try_into().unwrap(), &mut o).map_err(e)?;
                    Ok(o.to_vec())
                }),
                ("stack4", s4, |x| {
                    let mut o = [f32::NAN; $n];
                    dst4_inplace_stack::<$n>(x.try_into().unwrap(), &mut o).map_err(e)?;
                    Ok(o.to_vec())
                }),
            ];
            basis($cx, $n, &MAPS, 1.0);
            dense($cx, $n, &MAPS, 1.0);
            contents($cx, $n, 0, &MAPS);
        }
    )*}};
}
/// Every sequence of (table kind, length) requests on one planner, with scratch requests between.
fn tables<T: Num>(cx: &Cx, lens: &[usize], depth: usize) {
    let opts: Vec<(usize, usize)> = (2..=4).flat_map(|k| lens.iter().map(move |l| (k, *l))).collect();
    for c in 0..opts.len().pow(depth as u32) {
        let mut k = c;
        let seq: Vec<(usize, usize)> = (0..depth)
            .map(|_| {
                let o = opts[k % opts.len()];
                k /= opts.len();
                o
            })
            .collect();
        cx.case(
            || format!("tables/{}/{seq:?}", T::NAME),
            || {
                let mut p = DstPlanner::<T>::new();
                for (step, (kind, n)) in seq.iter().enumerate() {
                    let want: Vec<f64> = (0..*n).map(|i| if *kind == 3 { sinpi(i, *n) } else { sinpi(2 * i + 1, 2 * n) }).collect();
                    let got = match kind {
                        2 => p.plan_dst2(*n),
                        3 => p.plan_dst3(*n),
                        _ => p.plan_dst4(*n),
                    };
                    close_r(&vr(got), &want, T::EPS * 8.0).map_err(|m| format!("step {step}: {m}"))?;
                    let s = p.scratch(n + step);
                    if s.len() != n + step {
                        return Err(format!("step {step}: scratch of {} instead of {}", s.len(), n + step));
                    }
                    for v in s.iter_mut() {
                        *v = T::of(f64::NAN);
                    }
                }
                Ok(true)
            },
        );
    }
}

fn run(eng: &Eng) {
    let (nb, nd, depth) = eng.pick3((32, 80, 2), (144, 440, 3), (256, 1200, 4));
    let pairs: &'static [usize] = (0..=eng.pick(20, 64)).chain([96, 100, 128, 192, 200, 256]).collect::<Vec<_>>().leak();
    eng.note("bounds", format!("complete basis for every length 1..={nb}, dense and round trips 1..={nd}; stack forms 2..512; planner table requests of depth {depth} over 3 kinds x 5 lengths and of depth 2 over 3 kinds x {} lengths", pairs.len()));
    let (nc, words) = eng.pick3((20, 3), (200, 7), (500, 9));
    eng.note("contents", format!("special signals for every length to {nc}, every signal over -1, 0, 1 to length {words}"));
    let mut units: Vec<Unit> = Vec::new();
    for n in 1..=nd {
        units.push(Box::new(move |cx| {
            // The Hartley angle grows twice as fast.
            if n <= nb {
                basis(cx, n, &MAPS, 1.0);
            }
            dense(cx, n, &MAPS, 1.0);
            if n <= nc {
                contents(cx, n, words, &MAPS);
            }
            let half: fn(usize) -> f64 = |n| n as f64 / 2.0;
            inverse_pairs(
                cx,
                n,
                &[
                    (MAPS[0], MAPS[0], |n| (n as f64 + 1.0) / 2.0),
                    (MAPS[1], MAPS[2], half),
                    (MAPS[2], MAPS[1], half),
                    (MAPS[3], MAPS[3], half),
                    (MAPS[4], MAPS[4], |n| n as f64),
                    (MAPS[6], MAPS[7], half),
                    (MAPS[9], MAPS[4], |n| n as f64),
                ],
                1.0,
            );
        }));
    }
    units.push(Box::new(|cx| {
        cx.case(
            || "empty".into(),
            || {
                for (name, _, f) in &MAPS {
                    if !f(&[])?.is_empty() {
                        return Err(format!("{name} of nothing is something"));
                    }
                }
                Ok(true)
            },
        );
        stack!(cx, 2, 4, 8, 16, 32, 64, 128)
    }));
    if !eng.small() {
        units.push(Box::new(|cx| stack!(cx, 256)));
        units.push(Box::new(|cx| stack!(cx, 512)));
    }
    if !eng.small() {
        for n in (nd + 1..=eng.pick(500, 2000)).chain([512, 640, 1000, 1023, 1024, 1025, 1500, 2047, 2048, 2049, 3001, 4095, 4096, 4097, 5000, 8192]).chain(eng.pick(vec![], vec![8193, 10000, 16384, 20000])) {
            units.push(Box::new(move |cx| sparse(cx, n, &MAPS[..if n > 4096 { 5 } else if n > 1100 { 6 } else { 15 }], entry_tol)));
        }
    } else {
        for n in [257, 300, 512, 700, 1024, 1500] {
            units.push(Box::new(move |cx| sparse(cx, n, &MAPS, entry_tol)));
        }
    }
    if !eng.small() {
        // A length that f32 cannot represent.
        units.push(Box::new(move |cx| {
            let n = (1usize << 24) + 1;
            for kind in [2, 3, 4] {
                cx.case(
                    || format!("tables/f64/huge/{kind}/n={n}"),
                    || {
                        let mut p = DstPlanner::<f64>::new();
                        let t = match kind {
                            2 => p.plan_dst2(n),
                            3 => p.plan_dst3(n),
                            _ => p.plan_dst4(n),
                        };
                        if t.len() != n {
                            return Err(format!("{} entries instead of {n}", t.len()));
                        }
                        for (i, v) in t.iter().enumerate() {
                            let want = if kind == 3 { sinpi(i, n) } else { sinpi(2 * i + 1, 2 * n) };
                            if !((v - want).abs() <= 8.0 * f64::EPSILON) {
                                return Err(format!("[{i}]: {v} instead of {want}"));
                            }
                        }
                        Ok(true)
                    },
                );
            }
        }));
    }
    units.push(Box::new(move |cx| tables::<f32>(cx, &[1, 2, 3, 8, 100], depth)));
    units.push(Box::new(move |cx| tables::<f32>(cx, pairs, 2)));
    units.push(Box::new(move |cx| tables::<f64>(cx, &[1, 2, 3, 8, 100], depth)));
    units.push(Box::new(move |cx| tables::<f64>(cx, pairs, 2)));
    units.push(Box::new(move |cx| tables::<W>(cx, &[1, 2, 3, 8, 100], depth)));
    units.push(Box::new(move |cx| tables::<W>(cx, pairs, 2)));
    eng.run_units(units);
    if std::env::var("KMC_STAT").is_ok() {
        eprintln!("max deviation/tolerance = {}", stat_max());
    }
}

fn main() {
    kmc_engine::main_with(&[DEF]);
}

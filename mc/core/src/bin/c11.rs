//! C11: the cosine transforms I-IV (direct, planned, batched, stack-only) are the transforms of
//! their definitions, and invert each other up to the documented scale.
use kmc_core::common::*;
use kmc_core::trig::*;
use kofft::dct::*;

pub const DEF: CheckDef = CheckDef {
    id: "C11",
    level: Level::Exploration,
    rule: "one case = (transform, form, length, family); 'basis' explores every unit impulse, which determines the linear map completely; 'plan history' explores every sequence of planned lengths up to depth 4 on one planner",
    assumptions: &["matrices evaluated in f64 with exactly reduced angles", "tolerance proportional to the length: the direct forms evaluate their angles in single precision"],
    hang_s: 120,
    run,
};

fn m1(n: usize, k: usize, i: usize) -> f64 {
    if n == 1 {
        return 2.0;
    }
    if i == 0 {
        1.0
    } else if i == n - 1 {
        if k % 2 == 0 { 1.0 } else { -1.0 }
    } else {
        2.0 * cospi(i * k, n - 1)
    }
}
fn m2(n: usize, k: usize, i: usize) -> f64 {
    cospi((2 * i + 1) * k, 2 * n)
}
fn m3(n: usize, k: usize, i: usize) -> f64 {
    if i == 0 { 0.5 } else { cospi(i * (2 * k + 1), 2 * n) }
}
fn m4(n: usize, k: usize, i: usize) -> f64 {
    cospi((2 * i + 1) * (2 * k + 1), 4 * n)
}
fn batched(x: &[f32], f: fn(&mut [Vec<f32>])) -> Result<Vec<f32>, String> {
    // Neighbours of other lengths, and the order of the batch, do not matter.
    let mut b = vec![x.to_vec(), vec![1.0, -2.0, 0.5], x.to_vec(), vec![]];
    f(&mut b);
    if b[0] != b[2] || b[1].len() != 3 || !b[3].is_empty() {
        return Err("the rows of a batch are not transformed alike".into());
    }
    Ok(b.swap_remove(0))
}
const MAPS: [Map; 13] = [
    ("dct1", m1, |x| Ok(dct1(x))),
    ("dct2", m2, |x| Ok(dct2(x))),
    ("dct3", m3, |x| Ok(dct3(x))),
    ("dct4", m4, |x| Ok(dct4(x))),
    ("batch1", m1, |x| batched(x, batch_i)),
    ("batch2", m2, |x| batched(x, batch_ii)),
    ("batch3", m3, |x| batched(x, batch_iii)),
    ("batch4", m4, |x| batched(x, batch_iv)),
    ("channels1", m1, |x| batched(x, multi_channel_i)),
    ("channels2", m2, |x| batched(x, multi_channel_ii)),
    ("channels3", m3, |x| batched(x, multi_channel_iii)),
    ("channels4", m4, |x| batched(x, multi_channel_iv)),
    ("plan2", m2, |x| {
        let mut o = vec![f32::NAN; x.len()];
        DctPlanner::new().plan_dct2(x.len())(&mut x.to_vec(), &mut o).map_err(e)?;
        Ok(o)
    }),
];

macro_rules! stack {
    ($cx:expr, $($n:literal),*) => {{$(
        {
            const MAPS: [Map; 2] = [
                ("stack1", m1, |x| {
                    let mut o = [f32::NAN; $n];
                    dct1_inplace_stack::<$n>(x.try_into().unwrap(), &mut o).map_err(e)?;
                    Ok(o.to_vec())
                }),
                ("stack2", m2, |x| {
                    let mut o = [f32::NAN; $n];
                    dct2_inplace_stack::<$n>(x.try_into().unwrap(), &mut o).map_err(e)?;
                    Ok(o.to_vec())
                }),
            ];
            basis($cx, $n, &MAPS, 1.0);
            dense($cx, $n, &MAPS, 1.0);
            contents($cx, $n, 0, &MAPS);
        }
    )*}};
}

/// Every sequence of lengths on one planner, two runs of every plan: each result is that of a
/// fresh planner.
fn histories(cx: &Cx, lens: &[usize], depth: usize) {
    let total = lens.len().pow(depth as u32);
    for c in 0..total {
        let mut k = c;
        let seq: Vec<usize> = (0..depth)
            .map(|_| {
                let l = lens[k % lens.len()];
                k /= lens.len();
                l
            })
            .collect();
        cx.case(
            || format!("plan2/history={seq:?}"),
            || {
                let mut p = DctPlanner::new();
                for (s, n) in seq.iter().enumerate() {
                    let x: Vec<f32> = rv(&refs::probe(*n, 140 + s as u64));
                    let y: Vec<f32> = rv(&refs::probe(*n, 150 + s as u64));
                    let mut plan = p.plan_dct2(*n);
                    for v in [&x, &y, &x] {
                        let mut got = vec![f32::NAN; *n];
                        plan(&mut v.clone(), &mut got).map_err(e)?;
                        let mut want = vec![f32::NAN; *n];
                        DctPlanner::new().plan_dct2(*n)(&mut v.clone(), &mut want).map_err(e)?;
                        let l2: f64 = v.iter().map(|v| (*v as f64).powi(2)).sum::<f64>().sqrt();
                        close_r(&vr(&got), &vr(&want), fft_tol::<f32>(2 * n) * l2)
                            .map_err(|m| format!("step {s} (length {n}) depends on what was planned before: {m}"))?;
                    }
                }
                Ok(true)
            },
        );
    }
}

/// Long walks over the lengths on one planner, every result against the definition (sparse inputs).
fn walk(cx: &Cx, name: &str, lens: &[usize]) {
    cx.case(
        || format!("plan2/walk/{name}"),
        || {
            let mut p = DctPlanner::new();
            for (s, n) in lens.iter().enumerate() {
                let n = *n;
                let at = [(0, 0.75), (n / 3, 0.875), (n / 2, 1.0), (n - 1, -0.9375)];
                let mut x = vec![0f32; n];
                for (i, v) in &at {
                    x[*i] += *v as f32;
                }
                let mut got = vec![f32::NAN; n];
                p.plan_dct2(n)(&mut x, &mut got).map_err(e)?;
                let want: Vec<f64> = (0..n).map(|k| at.iter().map(|(i, v)| m2(n, k, *i) * v).sum()).collect();
                close_r(&vr(&got), &want, 3.0 * fft_tol::<f32>(2 * n)).map_err(|m| format!("step {s} (length {n}): {m}"))?;
            }
            Ok(true)
        },
    );
}

fn run(eng: &Eng) {
    let (nb, nd, depth) = eng.pick3((32, 80, 3), (144, 440, 4), (256, 1200, 5));
    eng.note("bounds", format!("complete basis for every length 1..={nb}, dense and round trips 0..={nd}; stack forms 2..512; planner histories of depth {depth} over 6 lengths and of depth 2 over 44 (thorough: 92) lengths"));
    let (nc, words) = eng.pick3((20, 3), (200, 7), (500, 9));
    eng.note("contents", format!("special signals for every length to {nc}, every signal over -1, 0, 1 to length {words}"));
    let mut units: Vec<Unit> = Vec::new();
    for n in 1..=nd {
        units.push(Box::new(move |cx| {
            if n <= nb {
                basis(cx, n, &MAPS, 1.0);
            }
            dense(cx, n, &MAPS, 1.0);
            if n <= nc {
                contents(cx, n, words, &MAPS);
            }
            let half: fn(usize) -> f64 = |n| n as f64 / 2.0;
            let ends: fn(usize) -> f64 = |n| if n == 1 { 4.0 } else { 2.0 * (n as f64 - 1.0) };
            inverse_pairs(
                cx,
                n,
                &[
                    (MAPS[0], MAPS[0], ends),
                    (MAPS[1], MAPS[2], half),
                    (MAPS[2], MAPS[1], half),
                    (MAPS[3], MAPS[3], half),
                    (MAPS[12], MAPS[2], half),
                    (MAPS[5], MAPS[6], half),
                    (MAPS[7], MAPS[7], half),
                ],
                1.0,
            );
        }));
    }
    // The planned form goes through an FFT: long lengths too.
    for n in [700usize, 1000, 1024, 2048, 3001, 4096].into_iter().take(eng.pick3(3, 6, 6)) {
        units.push(Box::new(move |cx| {
            cx.case(
                || format!("plan2/n={n}/long"),
                || {
                    let x: Vec<f32> = rv(&refs::probe(n, 134));
                    let y = MAPS[12].2(&x)?;
                    let l2: f64 = x.iter().map(|v| (*v as f64).powi(2)).sum::<f64>().sqrt();
                    let want: Vec<f64> = (0..n).map(|k| (0..n).map(|i| m2(n, k, i) * x[i] as f64).sum()).collect();
                    close_r(&vr(&y), &want, fft_tol::<f32>(2 * n) * l2)?;
                    Ok(true)
                },
            );
        }));
    }
    units.push(Box::new(|cx| {
        cx.case(
            || "empty".into(),
            || {
                for (name, _, f) in &MAPS[..12] {
                    if !f(&[])?.is_empty() {
                        return Err(format!("{name} of nothing is something"));
                    }
                }
                Ok(true)
            },
        );
        stack!(cx, 2, 4, 8, 16, 32, 64, 128)
    }));
    if !eng.small() {
        units.push(Box::new(|cx| stack!(cx, 256)));
        units.push(Box::new(|cx| stack!(cx, 512)));
    }
    if !eng.small() {
        for n in (nd + 1..=eng.pick(500, 2000)).chain([512, 640, 1000, 1023, 1024, 1025, 1500, 2047, 2048, 2049, 3001, 4095, 4096, 4097, 5000, 8192]).chain(eng.pick(vec![], vec![8193, 10000, 16384, 20000])) {
            units.push(Box::new(move |cx| {
                sparse(cx, n, &MAPS[..if n > 4096 { 4 } else if n > 1100 { 6 } else { 12 }], entry_tol);
            }));
        }
        for from in (nd..eng.pick(4200, 16500)).step_by(64) {
            units.push(Box::new(move |cx| (from..from + 64).for_each(|n| sparse(cx, n, &MAPS[12..], |n| fft_tol::<f32>(2 * n)))));
        }
        for n in [8191usize, 8192, 8193, 10_000, 16_383, 16_384, 20_000, 30_000, 32_767, 32_768, 32_769, 40_000, 50_000, 65_535, 65_536, 65_537, 70_000, 90_000, 131_071, 131_072, 131_073]
            .into_iter()
            .chain(eng.pick(vec![], vec![200_000, 262_144, 300_000, 524_288, 600_000, 1_048_576]))
        {
            units.push(Box::new(move |cx| sparse(cx, n, &MAPS[12..], |n| fft_tol::<f32>(2 * n))));
        }
    } else {
        for n in [257, 300, 512, 700, 1024, 1500] {
            units.push(Box::new(move |cx| sparse(cx, n, &MAPS[..12], entry_tol)));
        }
        for n in [257, 512, 1000, 4096, 65_536, 65_537, 131_072] {
            units.push(Box::new(move |cx| sparse(cx, n, &MAPS[12..], |n| fft_tol::<f32>(2 * n))));
        }
    }
    let top = eng.pick3(60, 700, 2500);
    let up: Vec<usize> = (1..=top).collect();
    let down: Vec<usize> = (1..=top).rev().collect();
    let zigzag: Vec<usize> = (1..=top).flat_map(|n| [n, top + 1 - n]).collect();
    let doubles: Vec<usize> = (1..=top).flat_map(|n| [2 * n, n, 4 * n, 3 * n, n]).collect();
    let congruent: Vec<usize> = (4..=eng.pick3(8, 16, 17)).flat_map(|k| [1usize, 2, 3, 8, 12].into_iter().flat_map(move |n| [n, n + (1 << k), n])).collect();
    for (name, lens) in [("up", up), ("down", down), ("zigzag", zigzag), ("doubles", doubles), ("congruent", congruent)] {
        units.push(Box::new(move |cx| walk(cx, name, &lens)));
    }
    units.push(Box::new(move |cx| histories(cx, &[1, 2, 3, 4, 7, 16], depth)));
    let pairs: &'static [usize] = (1..=eng.pick(32, 80)).chain([36, 40, 48, 60, 64, 72, 96, 100, 128, 192, 200, 256]).collect::<Vec<_>>().leak();
    units.push(Box::new(move |cx| histories(cx, pairs, 2)));
    eng.run_units(units);
    if std::env::var("KMC_STAT").is_ok() {
        eprintln!("max deviation/tolerance = {}", stat_max());
    }
}

fn main() {
    kmc_engine::main_with(&[DEF]);
}

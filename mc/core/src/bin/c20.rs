//! C20: the stack-only transforms never touch the heap and agree with the heap forms; everything
//! else gives back what it takes, and repeating work on one engine, planner or stream does not
//! make it hold more memory.
use kmc_core::common::*;
use kmc_core::entries::{entries, entries32};
use kmc_core::memory::{allocations, growth, Watch};
use kmc_core::user::*;
use kofft::rfft::*;
use kofft::stft::*;
use kofft::{dct, dst, wavelet, window};

#[global_allocator]
static A: Watch = Watch;

pub const DEF: CheckDef = CheckDef {
    id: "C20",
    level: Level::Exploration,
    rule: "one case = (stack-only routine, length) with every unit impulse and a dense input under an allocator that counts; or (one-shot routine, length) with the bytes held before and after; or one history (sequence of operations on one set of engines and planners, every sequence up to the depth), repeated three times; or (stream, window, hop) fed with up to 64 frames; or (routine, length) whose engine fails or panics at every one of its calls in turn; or a sequence of operations on one song index, repeated 64 times",
    assumptions: &["memory taken and given back by rayon's own threads is not counted (the lengths explored here stay below the parallel threshold)"],
    hang_s: 120,
    run,
};

fn quiet<R>(what: &str, f: impl FnOnce() -> R) -> Result<R, String> {
    let (r, n) = allocations(f);
    if n > 0 {
        return Err(format!("{what}: {n} heap allocation(s)"));
    }
    Ok(r)
}
fn dense<const N: usize>(salt: u64) -> [f32; N] {
    let mut a = [0.0; N];
    for (x, v) in a.iter_mut().zip(refs::probe(N, salt)) {
        *x = v as f32;
    }
    a
}
/// All unit impulses and two dense vectors.
fn inputs<const N: usize>() -> Vec<[f32; N]> {
    let mut v = vec![dense::<N>(200), dense::<N>(201)];
    for i in (0..N).step_by(if N > 256 { N / 8 } else { 1 }) {
        let mut a = [0.0; N];
        a[i] = 1.0;
        v.push(a);
    }
    v
}
fn l2(x: &[f32]) -> f64 {
    x.iter().map(|v| (*v as f64).powi(2)).sum::<f64>().sqrt()
}
type Real<const N: usize> = fn(&[f32; N], &mut [f32; N]) -> Result<(), FftError>;

fn stack<const N: usize>(cx: &Cx) {
    let pow2 = N.is_power_of_two();
    for inverse in [false, true] {
        cx.case(
            || format!("stack/{}/n={N}", if inverse { "ifft" } else { "fft" }),
            || {
                for re in inputs::<N>() {
                    for quarter in [false, true] {
                        let mut b: Box<[Complex32; N]> = Box::new([Complex32::new(0.0, 0.0); N]);
                        for (o, r) in b.iter_mut().zip(re) {
                            *o = if quarter { Complex32::new(-0.5 * r, r) } else { Complex32::new(r, 0.0) };
                        }
                        let x = b.to_vec();
                        let res = quiet("call", || if inverse { ifft_inplace_stack(&mut b) } else { fft_inplace_stack(&mut b) })?;
                        if res.is_ok() != (pow2 && N > 0) {
                            return Err(format!("{res:?} for length {N}"));
                        }
                        if res.is_ok() {
                            let mut want = x.clone();
                            let f = ScalarFftImpl::<f32>::default();
                            if inverse { f.ifft(&mut want) } else { f.fft(&mut want) }.map_err(e)?;
                            let s = if inverse { 1.0 / N as f64 } else { 1.0 };
                            close(&vc(&b[..]), &vc(&want), s * fft_tol::<f32>(N) * refs::norm2(&vc(&x)) + 1e-30)?;
                        } else if !bits_eq(&x, &b[..]) {
                            return Err("refused, but the buffer was changed".into());
                        }
                    }
                }
                Ok(true)
            },
        );
    }
    let forms: [(&str, Real<N>, fn(&[f32]) -> Vec<f32>); 6] = [
        ("dct1", dct::dct1_inplace_stack::<N>, dct::dct1),
        ("dct2", dct::dct2_inplace_stack::<N>, dct::dct2),
        ("dst2", dst::dst2_inplace_stack::<N>, dst::dst2),
        ("dst2_fft", dst::dst2_inplace_stack_fft::<N>, dst::dst2),
        ("dst3_fft", dst::dst3_inplace_stack_fft::<N>, dst::dst3),
        ("dst4", dst::dst4_inplace_stack::<N>, dst::dst4),
    ];
    for (name, f, heap) in forms {
        cx.case(
            || format!("stack/{name}/n={N}"),
            || {
                for x in inputs::<N>() {
                    let mut o = [7.0; N];
                    let res = quiet("call", || f(&x, &mut o))?;
                    if res.is_ok() != (pow2 && N >= 2) {
                        return Err(format!("{res:?} for length {N}"));
                    }
                    if res.is_ok() {
                        let want = heap(&x);
                        close_r(&vr(&o), &vr(&want), kmc_core::trig::entry_tol(N) * l2(&x))?;
                    }
                }
                Ok(true)
            },
        );
    }
    type Win<const N: usize> = (&'static str, fn(&mut [f32; N]), fn(usize) -> Vec<f32>);
    let windows: [Win<N>; 3] = [
        ("hann", window::hann_inplace_stack::<N>, window::hann),
        ("hamming", window::hamming_inplace_stack::<N>, window::hamming),
        ("blackman", window::blackman_inplace_stack::<N>, window::blackman),
    ];
    for (name, f, heap) in windows {
        cx.case(
            || format!("stack/{name}/n={N}"),
            || {
                let mut o = [f32::NAN; N];
                quiet("call", || f(&mut o))?;
                close_r(&vr(&o), &vr(&heap(N)), 1e-6)?;
                Ok(N > 0)
            },
        );
    }
    if N.is_multiple_of(2) {
        cx.case(
            || format!("stack/haar/n={N}"),
            || {
                for x in inputs::<N>() {
                    let (mut a, mut d, mut y) = (vec![7.0; N / 2], vec![7.0; N / 2], vec![7.0; N]);
                    quiet("forward", || wavelet::haar_forward_inplace_stack(&x, &mut a, &mut d))?;
                    let (wa, wd) = wavelet::haar_forward(&x);
                    if (&a, &d) != (&wa, &wd) {
                        return Err("differs from haar_forward".into());
                    }
                    quiet("inverse", || wavelet::haar_inverse_inplace_stack::<N>(&a, &d, &mut y))?;
                    if y != wavelet::haar_inverse(&a, &d) {
                        return Err("differs from haar_inverse".into());
                    }
                }
                Ok(true)
            },
        );
    }
}
fn real<const N: usize, const M: usize>(cx: &Cx) {
    cx.case(
        || format!("stack/rfft/n={N}/m={M}"),
        || {
            for x in inputs::<N>() {
                let mut o = [Complex32::new(7.0, 7.0); M];
                let res = quiet("forward", || rfft_stack(&x, &mut o))?;
                if res.is_ok() != (N.is_power_of_two() && M == N / 2 + 1) {
                    return Err(format!("{res:?}"));
                }
                if res.is_ok() && N > 1 {
                    let mut want = vec![Complex32::new(0.0, 0.0); M];
                    ScalarFftImpl::<f32>::default().rfft(&mut x.to_vec(), &mut want).map_err(e)?;
                    close(&vc(&o[..]), &vc(&want), fft_tol::<f32>(N) * l2(&x))?;
                }
                let mut y = [7.0; N];
                let res = quiet("inverse", || irfft_stack(&o, &mut y))?;
                if res.is_ok() {
                    close_r(&vr(&y), &vr(&x), fft_tol::<f32>(N) * l2(&x) * 2.0)?;
                }
            }
            Ok(true)
        },
    );
}
macro_rules! sizes {
    ($cx:expr, $($n:literal)*) => {{ $( stack::<$n>($cx); real::<$n, { $n / 2 + 1 }>($cx); real::<$n, { $n / 2 + 2 }>($cx); )* }};
}

/// `f` gives back everything it takes, also when it is used for the first time.
fn gives_back(f: &dyn Fn()) -> Result<bool, String> {
    // What the process sets up once (calibration, thread pools, lazily read settings).
    f();
    for round in 0..2 {
        let ((), g) = growth(f);
        if g != 0 {
            return Err(format!("{g} bytes are not given back (repetition {round})"));
        }
    }
    Ok(true)
}
fn oneshot<T: Num>(cx: &Cx, n: usize, list: &[kmc_core::entries::Entry<T>]) {
    let x = cv::<T>(&refs::cprobe(n, 202));
    for (name, f) in list {
        cx.case(
            || format!("oneshot/{}/{name}/n={n}", T::NAME),
            || {
                gives_back(&|| {
                    let _ = f(&x);
                })
            },
        );
    }
}

/// The long-lived objects of a program, created together.
struct World {
    s32: ScalarFftImpl<f32>,
    s64: ScalarFftImpl<f64>,
    best: Box<dyn FftImpl<f32>>,
    plan: FftPlan<f32>,
    r32: RfftPlanner<f32>,
    r64: RfftPlanner<f64>,
    dct: dct::DctPlanner,
    dst: dst::DstPlanner<f32>,
    fp: FftPlanner<f32>,
}
impl World {
    fn new() -> World {
        World {
            s32: Default::default(),
            s64: Default::default(),
            best: new_fft_impl(),
            plan: FftPlan::new(6, FftStrategy::Auto),
            r32: RfftPlanner::new(),
            r64: RfftPlanner::new(),
            dct: dct::DctPlanner::new(),
            dst: dst::DstPlanner::new(),
            fp: FftPlanner::new(),
        }
    }
}
type Op = (&'static str, fn(&mut World));
fn c32(n: usize) -> Vec<Complex32> {
    cv(&refs::cprobe(n, 203))
}
fn c64(n: usize) -> Vec<Complex64> {
    cv(&refs::cprobe(n, 204))
}
const OPS: &[Op] = &[
    ("fft32", |w| for n in [1, 2, 8, 32, 64, 12, 31] { w.s32.fft(&mut c32(n)).unwrap() }),
    ("ifft32", |w| for n in [16, 128, 12, 48] { w.s32.ifft(&mut c32(n)).unwrap() }),
    ("fft64", |w| for n in [4, 32, 256, 9, 30] { w.s64.fft(&mut c64(n)).unwrap() }),
    ("best", |w| for n in [8, 64, 10] { w.best.fft(&mut c32(n)).unwrap() }),
    ("plan", |w| w.plan.ifft(&mut c32(6)).unwrap()),
    ("split", |w| for n in [8, 32, 15] {
        let (mut a, mut b) = kmc_core::entries::split_of(&c32(n));
        w.s32.fft_split(&mut a, &mut b).unwrap();
        w.s32.ifft_split(&mut a, &mut b).unwrap();
    }),
    ("strided", |w| {
        w.s32.fft_strided_alloc(&mut c32(24), 3).unwrap();
        w.s32.ifft_strided_alloc(&mut c32(20), 2).unwrap();
    }),
    ("refused", |w| {
        let _ = w.s32.fft(&mut []);
        let _ = w.s32.fft_strided_alloc(&mut c32(24), 0);
        let _ = w.r32.rfft(&w.s32, &mut [0.0; 8], &mut c32(9));
        let _ = w.plan.fft(&mut c32(7));
    }),
    ("rfft32", |w| for n in [8, 12, 600] { w.r32.rfft(&w.s32, &mut vec![1.0; n], &mut c32(n / 2 + 1)).unwrap() }),
    ("irfft64", |w| for n in [8, 14] { w.r64.irfft(&w.s64, &mut c64(n / 2 + 1), &mut vec![0.0; n]).unwrap() }),
    ("dct", |w| for n in [4, 7, 32] { w.dct.plan_dct2(n)(&mut vec![1.0; n], &mut vec![0.0; n]).unwrap() }),
    ("dst", |w| {
        w.dst.plan_dst2(9);
        w.dst.plan_dst3(9);
        w.dst.plan_dst4(9);
        w.dst.scratch(33);
    }),
    ("tables", |w| {
        w.fp.get_twiddles(77);
        w.fp.get_bluestein(21);
    }),
];
/// Every sequence of operations up to the depth.  A single use of every operation brings every
/// cache to its final size; whatever follows takes nothing more, and dropping gives all back.
fn histories(cx: &Cx, first: usize, depth: usize) {
    let k = OPS.len();
    for code in 0..k.pow(depth as u32 - 1) {
        let mut c = code;
        let mut seq = vec![first];
        for _ in 1..depth {
            seq.push(c % k);
            c /= k;
        }
        let names: Vec<&str> = seq.iter().map(|o| OPS[*o].0).collect();
        cx.case(
            || format!("history/{}", names.join("+")),
            || {
                let (res, total) = growth(|| {
                    let mut w = World::new();
                    for o in &seq {
                        OPS[*o].1(&mut w);
                    }
                    // Rotating buffers settle after a few rounds.
                    for _ in 0..2 {
                        for o in &seq {
                            OPS[*o].1(&mut w);
                        }
                    }
                    for round in 0..3 {
                        let ((), g) = growth(|| {
                            for o in &seq {
                                OPS[*o].1(&mut w);
                            }
                        });
                        if g != 0 {
                            return Err(format!("the same work takes {g} more bytes when repeated (round {round})"));
                        }
                    }
                    Ok(())
                });
                res?;
                if total != 0 {
                    return Err(format!("{total} bytes are not given back when everything is dropped"));
                }
                cx.state(&seq);
                cx.transitions(6 * depth as u64);
                Ok(true)
            },
        );
    }
}
/// An engine of the user's that reports an error, or panics, at any of its calls: whatever the
/// routine had taken is given back all the same.
fn failing<T: Num + RealFftNum>(cx: &Cx, r: &Routine<T>, n: usize) {
    cx.case(
        || format!("failing/{}/{}/n={n}", T::NAME, r.name),
        || {
            let mut o = Objects::new();
            // Every cache has what this length needs.
            let (_, calls) = good(&mut o, r, n)?;
            good(&mut o, r, n)?;
            for at in 0..calls {
                for f in [Fault::Error(FftError::InvalidStride), Fault::Broken(FftError::InvalidValue), Fault::Panic] {
                    for round in 0..3 {
                        // What is reported is not this property's concern.
                        let ((), g) = growth(|| drop(faulty(&mut o, r, n, at, f)));
                        if g != 0 && round > 0 {
                            return Err(format!("{g} bytes are not given back when the engine's call {at} ends in {f:?}"));
                        }
                        cx.transitions(1);
                    }
                }
            }
            Ok(calls > 0)
        },
    );
}
fn streams(cx: &Cx, max: usize) {
    let fft = ScalarFftImpl::<f32>::default();
    for win in 1..=max {
        for hop in 1..=2 * max {
            cx.case(
                || format!("istft-stream/win={win}/hop={hop}"),
                || {
                    let mut s = IstftStream::new(win, hop, vec![1.0; win], &fft).map_err(e)?;
                    let frame = c32(win);
                    let mut at = vec![];
                    let mut held = 0;
                    for _ in 0..64 {
                        let (r, g) = growth(|| s.push_frame(&frame).map(|_| ()));
                        r.map_err(e)?;
                        held += g;
                        at.push(held);
                    }
                    // Some slack may be taken at first; then it is enough for ever.
                    if at[63] > at[16] {
                        return Err(format!("holds {} bytes more after 16 frames and {} after 64", at[16], at[63]));
                    }
                    Ok(true)
                },
            );
            cx.case(
                || format!("stft-stream/win={win}/hop={hop}"),
                || {
                    let signal = vec![0.5; 64 * hop];
                    let w = vec![1.0; win];
                    let mut s = StftStream::new(&signal, &w, hop, &fft).map_err(e)?;
                    let mut out = c32(win);
                    let mut held = 0;
                    for k in 0..64 {
                        let (r, g) = growth(|| s.next_frame(&mut out));
                        r.map_err(e)?;
                        held += g;
                        if k > 2 && g != 0 {
                            return Err(format!("frame {k} takes {g} bytes for good ({held} in all)"));
                        }
                    }
                    Ok(true)
                },
            );
        }
    }
}
/// Every sequence of operations on one song index, repeated 64 times: the index holds no more
/// than the songs it knows.
fn index(cx: &Cx, depth: u32) {
    use kofft::media::index::SongIndex;
    let dir = kmc_engine::scratch().join(format!("c20-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let file = |i: usize| dir.join(["one.wav", "a-longer-name.wav", "missing.wav"][i]);
    type Step = (&'static str, fn(&mut SongIndex, &std::path::Path, &std::path::Path, &std::path::Path));
    const STEPS: &[Step] = &[
        ("index one", |s, a, _, _| drop(s.index_song(a).unwrap())),
        ("index two", |s, _, b, _| drop(s.index_song(b).unwrap())),
        ("identify one", |s, a, _, _| drop(s.identify(a).unwrap())),
        ("identify two", |s, _, b, _| drop(s.identify(b).unwrap())),
        ("index missing", |s, _, _, c| drop(s.index_song(c).unwrap_err())),
        ("identify missing", |s, _, _, c| drop(s.identify(c).unwrap_err())),
    ];
    for same in [false, true] {
        std::fs::write(file(0), "one").unwrap();
        std::fs::write(file(1), if same { "one" } else { "two" }).unwrap();
        let (a, b, c) = (file(0), file(1), file(2));
        for d in 1..=depth {
            for code in 0..STEPS.len().pow(d) {
                let seq: Vec<usize> = (0..d).map(|i| code / STEPS.len().pow(i) % STEPS.len()).collect();
                cx.case(
                    || format!("index/{}/{}", if same { "same" } else { "different" }, seq.iter().map(|s| STEPS[*s].0).collect::<Vec<_>>().join("+")),
                    || {
                        let (res, total) = growth(|| {
                            let mut s = SongIndex::new();
                            let (mut held, mut mark) = (0, 0);
                            for round in 0..64 {
                                let ((), g) = growth(|| {
                                    for o in &seq {
                                        STEPS[*o].1(&mut s, &a, &b, &c);
                                    }
                                });
                                held += g;
                                if round == 15 {
                                    mark = held;
                                }
                            }
                            if held > mark {
                                return Err(format!("holds {mark} bytes after 16 rounds and {held} after 64"));
                            }
                            Ok(())
                        });
                        res?;
                        if total != 0 {
                            return Err(format!("{total} bytes are not given back when the index is dropped"));
                        }
                        cx.state(&(same, &seq));
                        cx.transitions(64 * d as u64);
                        Ok(true)
                    },
                );
            }
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
}

fn run(eng: &Eng) {
    let (n1, depth, win) = (eng.pick3(24, 200, 700), eng.pick3(2, 4, 5), eng.pick3(4, 16, 40));
    let mut units: Vec<Unit> = vec![];
    units.push(Box::new(|cx| sizes!(cx, 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 20 24 31 32 33 48)));
    units.push(Box::new(|cx| sizes!(cx, 63 64 65 96 100 127 128)));
    units.push(Box::new(|cx| sizes!(cx, 255 256)));
    units.push(Box::new(|cx| sizes!(cx, 500 512)));
    if !eng.small() {
        units.push(Box::new(|cx| sizes!(cx, 1000 1024)));
        units.push(Box::new(|cx| sizes!(cx, 2048)));
    }
    for n in 0..=n1 {
        units.push(Box::new(move |cx| {
            oneshot::<f32>(cx, n, &entries());
            oneshot::<f32>(cx, n, &entries32());
            oneshot::<f64>(cx, n, &entries());
            oneshot::<W>(cx, n, &entries());
        }));
    }
    for n in [128, 256, 500, 1000, 1024, 2048] {
        units.push(Box::new(move |cx| {
            oneshot::<f32>(cx, n, &entries());
            oneshot::<f32>(cx, n, &entries32());
            oneshot::<f64>(cx, n, &entries());
        }));
    }
    if !eng.small() {
        for n in [4096usize, 5000, 8192, 65_535, 65_536, 65_537, 131_072] {
            units.push(Box::new(move |cx| oneshot::<f32>(cx, n, &entries())));
            units.push(Box::new(move |cx| oneshot::<f32>(cx, n, &entries32())));
            units.push(Box::new(move |cx| oneshot::<f64>(cx, n, &entries())));
        }
    }
    for first in 0..OPS.len() {
        units.push(Box::new(move |cx| histories(cx, first, depth)));
    }
    let fail = eng.pick3(8, 40, 130);
    let (f32s, f64s, times) = (routines::<f32>(), routines::<f64>(), short_time());
    eng.note("failing engines", format!("every engine call of {} routines for lengths 1..={fail} ends in an error, in errors from then on, or in a panic", f32s.len() + f64s.len() + times.len()));
    let (f32s, f64s, times): (&'static Vec<_>, &'static Vec<_>, &'static Vec<_>) = (Box::leak(Box::new(f32s)), Box::leak(Box::new(f64s)), Box::leak(Box::new(times)));
    for n in 1..=fail {
        units.push(Box::new(move |cx| {
            f32s.iter().for_each(|r| failing(cx, r, n));
            f64s.iter().for_each(|r| failing(cx, r, n));
            times.iter().for_each(|r| failing(cx, r, n));
        }));
    }
    units.push(Box::new(move |cx| streams(cx, win)));
    let steps = eng.pick3(2, 3, 4);
    units.push(Box::new(move |cx| index(cx, steps)));
    eng.run_units(units);
    if std::env::var("KMC_STAT").is_ok() {
        eprintln!("max deviation/tolerance = {}", stat_max());
    }
}

fn main() {
    kmc_engine::main_with(&[DEF]);
}

//! C09: the streaming short-time transforms are state machines whose observable behaviour over any
//! history of calls is that of a batch transform over the frames accepted so far.
//!
//! The reference model is an explicit automaton; its reachable states are enumerated by depth-first
//! exploration of every operation sequence up to a depth, and every sequence is replayed against
//! the implementation, step by step.
use kmc_core::common::*;
use kofft::stft::*;
use std::cell::Cell;

pub const DEF: CheckDef = CheckDef {
    id: "C09",
    level: Level::Model,
    rule: "one case = (stream kind, window length, hop, window, operation sequence); operations: synthesis {push frame A, push frame B, push a frame of a wrong length, push while the engine fails, flush}, analysis {next, next with a wrong buffer, next while the engine fails}",
    assumptions: &["after a flush the stream may be called again (it must not panic, and a flush of a flushed stream is empty), but the samples then produced are unspecified", "samples whose accumulated squared window is below 1e-7 are not compared"],
    hang_s: 60,
    run,
};

/// An engine that fails on demand (fault injection); otherwise the scalar engine.
struct Faulty {
    inner: ScalarFftImpl<f32>,
    fail: Cell<bool>,
}
impl Faulty {
    fn new() -> Self {
        Faulty { inner: ScalarFftImpl::default(), fail: Cell::new(false) }
    }
    fn gate(&self, i: &mut [Complex32]) -> Result<(), FftError> {
        if self.fail.get() {
            // A failing engine may leave anything behind in the buffer it was given.
            for v in i.iter_mut() {
                *v = Complex32::new(1e9, f32::NAN);
            }
            return Err(FftError::InvalidValue);
        }
        Ok(())
    }
}
impl FftImpl<f32> for Faulty {
    fn fft(&self, i: &mut [Complex32]) -> Result<(), FftError> {
        self.gate(i)?;
        self.inner.fft(i)
    }
    fn ifft(&self, i: &mut [Complex32]) -> Result<(), FftError> {
        self.gate(i)?;
        self.inner.ifft(i)
    }
    fn fft_strided(&self, i: &mut [Complex32], s: usize, b: &mut [Complex32]) -> Result<(), FftError> {
        self.gate(i)?;
        self.inner.fft_strided(i, s, b)
    }
    fn ifft_strided(&self, i: &mut [Complex32], s: usize, b: &mut [Complex32]) -> Result<(), FftError> {
        self.gate(i)?;
        self.inner.ifft_strided(i, s, b)
    }
    fn fft_out_of_place_strided(&self, i: &[Complex32], a: usize, o: &mut [Complex32], b: usize) -> Result<(), FftError> {
        if self.fail.get() {
            return Err(FftError::InvalidValue);
        }
        self.inner.fft_out_of_place_strided(i, a, o, b)
    }
    fn ifft_out_of_place_strided(&self, i: &[Complex32], a: usize, o: &mut [Complex32], b: usize) -> Result<(), FftError> {
        if self.fail.get() {
            return Err(FftError::InvalidValue);
        }
        self.inner.ifft_out_of_place_strided(i, a, o, b)
    }
    fn fft_with_strategy(&self, i: &mut [Complex32], s: FftStrategy) -> Result<(), FftError> {
        self.gate(i)?;
        self.inner.fft_with_strategy(i, s)
    }
}

// ---------------------------------------------------------------- synthesis
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
enum Op {
    A,
    B,
    Short,
    Long,
    Fault,
    Flush,
}
/// The model's state: which frames were accepted, and whether the tail was handed out.
#[derive(Clone, Hash, PartialEq, Eq)]
struct M {
    win: usize,
    hop: usize,
    frames: Vec<u8>,
    flushed: bool,
    after: u8,
}
struct Ctx {
    win: Vec<f32>,
    spec: [Vec<Complex32>; 2],
    time: [Vec<f64>; 2],
    scale: f64,
}
impl M {
    /// Sample t of the overlap-add of the accepted frames: (sum, norm, magnitude).
    fn at(&self, c: &Ctx, t: usize) -> (f64, f64, f64) {
        let (mut s, mut n, mut m) = (0.0, 0.0, 0.0);
        let first = (t + 1).saturating_sub(self.win).div_ceil(self.hop);
        let past = (t / self.hop + 1).min(self.frames.len());
        for k in first..past {
            let f = &self.frames[k];
            if let Some(i) = t.checked_sub(k * self.hop) {
                if i < self.win {
                    let w = c.win[i] as f64;
                    s += c.time[*f as usize][i] * w;
                    n += w * w;
                    m += w.abs() * c.scale;
                }
            }
        }
        (s, n, m)
    }
    fn compare(&self, c: &Ctx, from: usize, got: &[f32]) -> Result<(), String> {
        for (i, g) in got.iter().enumerate() {
            let (s, n, m) = self.at(c, from + i);
            let g = *g as f64;
            if !g.is_finite() {
                return Err(format!("sample {} is {g}", from + i));
            }
            if n > 1e-7 {
                let want = s / n;
                let tol = 0.3 * fft_tol::<f32>(self.win) * m / n + 4e-7 * want.abs();
                stat((g - want).abs() / tol);
                if (g - want).abs() > tol {
                    return Err(format!("sample {}: got {g}, expected {want} (tolerance {tol:.2e})", from + i));
                }
            } else if n == 0.0 && g != 0.0 {
                return Err(format!("sample {} is {g} where no frame contributes", from + i));
            }
        }
        Ok(())
    }
}
fn synth_run(cx: &Cx, c: &Ctx, win: usize, hop: usize, ops: &[Op]) -> Result<bool, String> {
    let eng = Faulty::new();
    let mut st = IstftStream::new(win, hop, c.win.clone(), &eng).map_err(e)?;
    let mut m = M { win, hop, frames: vec![], flushed: false, after: 0 };
    cx.state(&m);
    cx.trace();
    for (step, op) in ops.iter().enumerate() {
        let at = |s: String| format!("step {step} ({op:?}): {s}");
        cx.transitions(1);
        match op {
            Op::A | Op::B => {
                let f = (*op == Op::B) as usize;
                let out = st.push_frame(&c.spec[f]).map_err(|x| at(e(x)))?;
                if out.len() != hop {
                    return Err(at(format!("{} samples instead of {hop}", out.len())));
                }
                if m.flushed {
                    m.after = (m.after + 1).min(2);
                } else {
                    m.frames.push(f as u8);
                    m.compare(c, (m.frames.len() - 1) * hop, out).map_err(at)?;
                }
            }
            Op::Short | Op::Long => {
                let l = if *op == Op::Short { win - 1 } else { win + 1 };
                let v = vec![Complex32::new(1e9, 1e9); l];
                if st.push_frame(&v) != Err(FftError::MismatchedLengths) {
                    return Err(at("a frame of a wrong length was not refused".into()));
                }
            }
            Op::Fault => {
                eng.fail.set(true);
                let r = st.push_frame(&c.spec[0]).map(|_| ());
                eng.fail.set(false);
                if r != Err(FftError::InvalidValue) {
                    return Err(at(format!("the engine's error was not reported: {r:?}")));
                }
            }
            Op::Flush => {
                let out = st.flush();
                if m.frames.is_empty() && m.after == 0 || m.flushed {
                    if m.after == 0 && !out.is_empty() {
                        return Err(at(format!("{} samples left to flush", out.len())));
                    }
                } else {
                    let n = m.frames.len();
                    let tail = win.saturating_sub(hop);
                    if out.len() != tail {
                        return Err(at(format!("{} samples flushed instead of {tail}", out.len())));
                    }
                    m.compare(c, n * hop, out).map_err(at)?;
                    m.flushed = true;
                }
            }
        }
        // A state of a long history is told by the number of its frames.
        if m.frames.len() <= 130 {
            cx.state(&m);
        } else {
            cx.state(&(win, hop, m.frames.len(), m.flushed, m.after));
        }
    }
    Ok(!m.frames.is_empty())
}
fn sequences(cx: &Cx, ops: &[Op], depth: usize, f: &mut dyn FnMut(&Cx, &[Op])) {
    fn go(cx: &Cx, all: &[Op], cur: &mut Vec<Op>, depth: usize, f: &mut dyn FnMut(&Cx, &[Op])) {
        if !cur.is_empty() {
            f(cx, cur);
        }
        if cur.len() == depth {
            return;
        }
        for o in all {
            cur.push(*o);
            go(cx, all, cur, depth, f);
            cur.pop();
        }
    }
    go(cx, ops, &mut Vec::new(), depth, f)
}
fn synth_windows(win: usize) -> Vec<(&'static str, Vec<f32>)> {
    let mut holes: Vec<f32> = rv(&refs::probe(win, 91));
    holes[0] = 0.0;
    if win > 2 {
        holes[win / 2] = 0.0;
    }
    vec![("ones", vec![1.0; win]), ("holes", holes)]
}
fn synth_ctx(win: usize, w: Vec<f32>) -> Ctx {
    synth_of(win, w, false)
}
/// With silent frames, the second of the two spectra is zero.
fn synth_of(win: usize, w: Vec<f32>, silent: bool) -> Ctx {
    let mut spec = [cv::<f32>(&refs::cprobe(win, 92)), cv::<f32>(&refs::cprobe(win, 93))];
    if silent {
        spec[1].fill(Complex32::zero());
    }
    let time = [0, 1].map(|i| refs::idft(&vc(&spec[i])).iter().map(|v| v.0).collect());
    let scale = refs::norm2(&vc(&spec[0])).max(refs::norm2(&vc(&spec[1]))) / (win as f64).sqrt();
    Ctx { win: w, spec, time, scale }
}

// ---------------------------------------------------------------- analysis
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
enum An {
    Next,
    Short,
    Long,
    Fault,
}
fn analysis_run(cx: &Cx, n: usize, win: usize, hop: usize, ops: &[An], reference: &[Vec<C>], norms: &[f64]) -> Result<bool, String> {
    let eng = Faulty::new();
    let sig: Vec<f32> = rv(&refs::probe(n, 94));
    let w: Vec<f32> = rv(&refs::probe(win, 95));
    let mut st = StftStream::new(&sig, &w, hop, &eng).map_err(e)?;
    let need = n.div_ceil(hop);
    let mut pos = 0usize;
    cx.state(&(n, win, hop, pos));
    cx.trace();
    for (step, op) in ops.iter().enumerate() {
        let at = |s: String| format!("step {step} ({op:?}) after {pos} frames: {s}");
        cx.transitions(1);
        let l = match op {
            An::Short => win - 1,
            An::Long => win + 1,
            _ => win,
        };
        let mark = vec![Complex32::new(5.5, -2.25); l];
        let mut out = mark.clone();
        eng.fail.set(*op == An::Fault);
        let r = st.next_frame(&mut out);
        eng.fail.set(false);
        match op {
            An::Short | An::Long => {
                if r != Err(FftError::MismatchedLengths) || !bits_eq(&out, &mark) {
                    return Err(at(format!("a buffer of a wrong length gave {r:?}")));
                }
            }
            _ if pos >= need => {
                if r != Ok(false) || !bits_eq(&out, &mark) {
                    return Err(at(format!("an exhausted stream gave {r:?}")));
                }
            }
            An::Fault => {
                if r != Err(FftError::InvalidValue) {
                    return Err(at(format!("the engine's error was not reported: {r:?}")));
                }
            }
            An::Next => {
                if r != Ok(true) {
                    return Err(at(format!("{r:?} instead of a frame")));
                }
                close(&vc(&out), &reference[pos], fft_tol::<f32>(win) * norms[pos] + 1e-30).map_err(at)?;
                pos += 1;
            }
        }
        cx.state(&(n, win, hop, pos));
    }
    Ok(pos > 0)
}
fn an_sequences(ops: &[An], depth: usize, f: &mut dyn FnMut(&[An])) {
    let total: usize = (1..=depth).map(|d| ops.len().pow(d as u32)).sum();
    for mut i in 0..total {
        let mut d = 1;
        while i >= ops.len().pow(d as u32) {
            i -= ops.len().pow(d as u32);
            d += 1;
        }
        let mut v = Vec::with_capacity(d);
        for _ in 0..d {
            v.push(ops[i % ops.len()]);
            i /= ops.len();
        }
        f(&v);
    }
}

fn run(eng: &Eng) {
    // Every sequence over all operations up to `d1` for small configurations, and of pushes and
    // flushes up to `d2` (long runs) for every configuration.
    let (w1, h1, d1, d2) = eng.pick3((3, 4, 5, 6), (5, 7, 6, 9), (7, 9, 7, 11));
    let (wl, hl, pushes) = eng.pick3((12, 14, 20), (24, 30, 40), (48, 60, 120));
    eng.note("bounds", format!("synthesis: all 6-operation sequences of length <={d1} for window<={w1}, hop<={h1}; all sequences of pushes and flush of length <={d2} (window<={w1}); long histories of {pushes} pushes with one interruption of every kind at every position for window<={wl}, hop<={hl}"));
    let mut units: Vec<Unit> = Vec::new();
    for win in 1..=w1 {
        for hop in 1..=h1 {
            units.push(Box::new(move |cx| {
                for (wn, w) in synth_windows(win) {
                    let c = synth_ctx(win, w);
                    sequences(cx, &[Op::A, Op::B, Op::Short, Op::Long, Op::Fault, Op::Flush], d1, &mut |cx, ops| {
                        cx.case(|| format!("synthesis/window={wn}{win}/hop={hop}/{ops:?}"), || synth_run(cx, &c, win, hop, ops));
                    });
                    sequences(cx, &[Op::A, Op::B, Op::Flush], d2, &mut |cx, ops| {
                        if ops.len() > d1 {
                            cx.case(|| format!("synthesis/window={wn}{win}/hop={hop}/{ops:?}"), || synth_run(cx, &c, win, hop, ops));
                        }
                    });
                    let c = synth_of(win, c.win, true);
                    sequences(cx, &[Op::A, Op::B, Op::Flush], d1, &mut |cx, ops| {
                        cx.case(|| format!("synthesis/window={wn}{win}/hop={hop}/B is silent/{ops:?}"), || synth_run(cx, &c, win, hop, ops));
                    });
                }
            }));
        }
    }
    for win in 1..=wl {
        units.push(Box::new(move |cx| {
            for hop in 1..=hl {
                for (wn, w) in synth_windows(win) {
                    let c = synth_ctx(win, w);
                    let base: Vec<Op> = (0..pushes).map(|i| if i % 3 == 1 { Op::B } else { Op::A }).collect();
                    for (kn, kind) in [("short", Op::Short), ("long", Op::Long), ("fault", Op::Fault)] {
                        for at in (0..=pushes).step_by(if hop % 5 == 2 { 1 } else { 13 }) {
                            let mut ops = base.clone();
                            ops.insert(at, kind);
                            ops.push(Op::Flush);
                            ops.push(Op::Flush);
                            cx.case(|| format!("synthesis/window={wn}{win}/hop={hop}/run{pushes}/{kn}@{at}"), || synth_run(cx, &c, win, hop, &ops));
                        }
                    }
                    for len in 1..=pushes {
                        if len % 7 == 1 || len < 6 {
                            let mut ops = base[..len].to_vec();
                            ops.extend([Op::Flush, Op::Flush, Op::A, Op::A, Op::Flush]);
                            cx.case(|| format!("synthesis/window={wn}{win}/hop={hop}/run{len}/again"), || synth_run(cx, &c, win, hop, &ops));
                        }
                    }
                }
            }
        }));
    }
    // Histories so long that narrow counters wrap and buffers are moved many times.
    let longs: &[usize] = eng.pick3(&[127, 128, 256, 300], &[127, 128, 129, 254, 255, 256, 257, 300, 511, 512, 513, 768, 1000, 1024, 1025, 4096, 10_000, 32_768, 65_535, 65_536, 65_537, 131_072], &[127, 128, 129, 254, 255, 256, 257, 300, 511, 512, 513, 768, 1000, 1024, 1025, 2048, 4096, 10_000, 16_384, 32_767, 32_768, 32_769, 65_535, 65_536, 65_537, 100_000, 131_072, 262_144, 1_048_576]);
    let shapes: &[(usize, usize)] = eng.pick3(&[(4, 2), (3, 5)], &[(1, 1), (2, 1), (4, 1), (4, 2), (4, 4), (5, 3), (3, 5), (8, 2), (16, 7)], &[(1, 1), (2, 1), (4, 1), (4, 2), (4, 4), (5, 3), (3, 5), (8, 2), (16, 7), (1, 3), (7, 7), (12, 1), (20, 4)]);
    let broad: &[(usize, usize)] = eng.pick3(&[(64, 16)], &[(64, 16), (256, 64), (400, 160), (512, 512), (500, 700), (1024, 256), (1000, 999), (2048, 1)], &[(64, 16), (64, 1), (256, 64), (400, 160), (512, 512), (500, 700), (1024, 256), (1000, 999), (2048, 1), (4096, 1024), (8192, 100)]);
    eng.note("long histories", format!("{longs:?} pushes then flush for (window, hop) in {shapes:?}; 130 pushes for {broad:?}; with every kind of interruption near the end"));
    for (&(win, hop), lens) in shapes.iter().map(|s| (s, longs)).chain(broad.iter().map(|s| (s, &[130usize][..]))) {
        for &len in lens {
            units.push(Box::new(move |cx| {
                for (wn, w) in synth_windows(win) {
                    let c = synth_ctx(win, w);
                    let mut base: Vec<Op> = (0..len).map(|i| if i % 3 == 1 { Op::B } else { Op::A }).collect();
                    base.extend([Op::Flush, Op::Flush]);
                    cx.case(|| format!("synthesis/window={wn}{win}/hop={hop}/long{len}"), || synth_run(cx, &c, win, hop, &base));
                    if len <= 1025 {
                        for (kn, kind) in [("short", Op::Short), ("long", Op::Long), ("fault", Op::Fault)] {
                            for at in [len - 1, len] {
                                let mut ops = base.clone();
                                ops.insert(at, kind);
                                cx.case(|| format!("synthesis/window={wn}{win}/hop={hop}/long{len}/{kn}@{at}"), || synth_run(cx, &c, win, hop, &ops));
                            }
                        }
                    }
                }
            }));
        }
    }
    let (na, wa, ha, da) = eng.pick3((5, 3, 4, 5), (9, 5, 6, 7), (12, 7, 9, 8));
    eng.note("bounds_analysis", format!("all 4-operation sequences of length <={da} for signal<={na}, window<={wa}, hop<={ha}"));
    for n in 0..=na {
        for win in 1..=wa {
            units.push(Box::new(move |cx| {
                for hop in 1..=ha {
                    let sig: Vec<f32> = rv(&refs::probe(n, 94));
                    let w: Vec<f32> = rv(&refs::probe(win, 95));
                    let (mut reference, mut norms) = (Vec::new(), Vec::new());
                    for k in 0..n.div_ceil(hop) {
                        let x: Vec<C> = (0..win).map(|i| (sig.get(k * hop + i).map_or(0.0, |s| (s * w[i]) as f64), 0.0)).collect();
                        norms.push(refs::norm2(&x));
                        reference.push(refs::dft(&x));
                    }
                    an_sequences(&[An::Next, An::Short, An::Long, An::Fault], da, &mut |ops| {
                        cx.case(
                            || format!("analysis/signal={n}/window={win}/hop={hop}/{ops:?}"),
                            || analysis_run(cx, n, win, hop, ops, &reference, &norms),
                        );
                    });
                }
            }));
        }
    }
    eng.run_units(units);
    if std::env::var("KMC_STAT").is_ok() {
        eprintln!("max deviation/tolerance = {}", stat_max());
    }
}

fn main() {
    kmc_engine::main_with(&[DEF]);
}

//! C26: whatever a transform engine reports, the routines built on it report; a failed or
//! interrupted call leaves nothing behind that changes a later one.
use kmc_core::common::*;
use kmc_core::memory::{fenced, Place, Watch};
use kmc_core::user::*;
use kofft::rfft::*;
use kofft::stft;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[global_allocator]
static A: Watch = Watch;

pub const DEF: CheckDef = CheckDef {
    id: "C26",
    level: Level::Fault,
    rule: "one case = (element type, routine, length): the engine fails at every one of its calls in turn, with every error (alone, or with another error at every call after it) and by panicking; 'history' cases: every sequence up to the depth of {work, fail at a call, panic at a call} x lengths on one set of objects; 'stream' cases: (stream, window, hop, the faults before each engine call succeeds); 'memory' cases: (routine, length) with two fills of fresh memory",
    assumptions: &["a failing engine may leave anything in the buffers it was given mutably", "after a failed call, outputs that the caller handed in are unspecified except where the property says otherwise"],
    hang_s: 120,
    run,
};

fn one<T: Num + RealFftNum>(cx: &Cx, r: &Routine<T>, n: usize) -> Result<bool, String> {
    let (want, calls) = good(&mut Objects::new(), r, n)?;
    if let Some(w) = r.want {
        close_r(&want, &w(n), fft_tol::<T>(n) * (n as f64).sqrt() * 2.0)?;
    }
    for at in 0..calls {
        for f in ERRORS.iter().flat_map(|x| [Fault::Error(*x), Fault::Broken(*x)]).chain([Fault::Panic]) {
            let mut o = Objects::new();
            faulty(&mut o, r, n, at, f)?;
            cx.transitions(2);
            let (got, _) = good(&mut o, r, n).map_err(|m| format!("after {f:?} at call {at}: {m}"))?;
            if bits(&got) != bits(&want) {
                return Err(format!("after {f:?} at call {at}, the next call returned something else"));
            }
        }
    }
    Ok(calls > 0)
}
#[derive(Clone, Copy, Debug)]
enum Step {
    Work,
    Fail(bool, bool),
}
/// Every sequence of steps on one set of objects; the reference is a fresh set for every step.
fn histories<T: Num + RealFftNum>(cx: &Cx, rs: &'static [Routine<T>], which: [usize; 2], lens: [usize; 2], depth: usize) {
    // (routine, length, what happens)
    let mut ops = vec![];
    for r in 0..2 {
        for l in 0..2 {
            for s in [Step::Work, Step::Fail(false, false), Step::Fail(true, false), Step::Fail(true, true)] {
                ops.push((which[r], lens[l], s));
            }
        }
    }
    let reference = |r: usize, n: usize| good(&mut Objects::<T>::new(), &rs[r], n);
    let refs: Vec<_> = ops.iter().map(|o| reference(o.0, o.1)).collect();
    let total = ops.len().pow(depth as u32);
    for first in 0..ops.len() {
        cx.case(
            || format!("{}/history/{},{}/n={lens:?}/depth={depth}/first={:?}", T::NAME, rs[which[0]].name, rs[which[1]].name, ops[first]),
            || {
                for code in 0..total / ops.len() {
                    let mut o = Objects::new();
                    let mut c = code;
                    for d in 0..depth {
                        let k = if d == 0 {
                            first
                        } else {
                            let k = c % ops.len();
                            c /= ops.len();
                            k
                        };
                        let (r, n, s) = ops[k];
                        let (want, calls) = refs[k].as_ref().map_err(|m| m.clone())?;
                        cx.transitions(1);
                        match s {
                            Step::Work => {
                                let (got, _) = good(&mut o, &rs[r], n).map_err(|m| format!("step {d} of history {code}: {m}"))?;
                                if bits(&got) != bits(want) {
                                    return Err(format!("step {d} of history {code} returned something else than with fresh objects"));
                                }
                            }
                            Step::Fail(last, panic) => {
                                let f = if panic { Fault::Panic } else { Fault::Error(FftError::InvalidStride) };
                                faulty(&mut o, &rs[r], n, if last { calls - 1 } else { 0 }, f).map_err(|m| format!("step {d} of history {code}: {m}"))?;
                            }
                        }
                    }
                    // Whatever happened, everything still works.
                    for k in (0..ops.len()).step_by(4) {
                        let (got, _) = good(&mut o, &rs[ops[k].0], ops[k].1)?;
                        if bits(&got) != bits(&refs[k].as_ref().map_err(|m| m.clone())?.0) {
                            return Err(format!("after history {code}, {} returned something else than with fresh objects", rs[ops[k].0].name));
                        }
                    }
                }
                cx.trace();
                Ok(true)
            },
        );
    }
}
/// The engine must not be shown memory that nobody wrote.
fn memory<T: Num + RealFftNum>(r: &Routine<T>, n: usize) -> Result<bool, String> {
    let seen = |fill: u8| {
        fenced(Place::End, fill, || {
            let mut o = Objects::<T>::new();
            *o.e.seen.borrow_mut() = Some(vec![]);
            let _ = (r.run)(&mut o, n);
            let s = o.e.seen.borrow_mut().take();
            s
        })
    };
    let (a, b) = (seen(0x11).unwrap(), seen(0x2e).unwrap());
    if a != b {
        return Err("the engine was handed memory that nobody had written".into());
    }
    Ok(!a.is_empty())
}

/// A stream goes on after its engine failed: `how[k]` tells how often each engine call fails
/// before it works (bit 0: an error, bit 1: a panic).
fn stream(cx: &Cx, synthesis: bool, n: usize, hop: usize, how: &[usize]) -> Result<bool, String> {
    let k = how.len();
    let (x, w) = (reals::<f32>((k - 1) * hop + 1), reals::<f32>(n));
    let frames: Vec<Vec<Complex32>> = (0..k).map(|i| cv(&refs::cprobe(n, 80 + i as u64))).collect();
    let play = |faults: bool| -> Result<Vec<u64>, String> {
        let e = User::<f32>::new();
        let mut an = stft::StftStream::new(&x, &w, hop, &e).map_err(|r| format!("{r:?}"))?;
        let mut syn = stft::IstftStream::new(n, hop, w.clone(), &e).map_err(|r| format!("{r:?}"))?;
        let mut all = vec![];
        for i in 0..k {
            let mut step = || -> Result<Vec<u64>, FftError> {
                if synthesis {
                    return Ok(bits(&vr(syn.push_frame(&frames[i])?)));
                }
                let mut f = vec![Complex32::new(5.0, 6.0); n];
                let more = an.next_frame(&mut f)?;
                let mut v = bits(&flat(&f));
                v.push(more as u64);
                Ok(v)
            };
            for (bit, f) in [(1, Fault::Error(FftError::InvalidStride)), (2, Fault::Panic)] {
                if faults && how[i] & bit != 0 {
                    e.calls.set(0);
                    e.at.set(Some((0, f)));
                    let got = catch_unwind(AssertUnwindSafe(&mut step));
                    e.at.set(None);
                    match (f, got) {
                        (Fault::Panic, Err(_)) | (Fault::Error(_), Ok(Err(FftError::InvalidStride))) => {}
                        (_, got) => return Err(format!("frame {i}: {f:?} became {:?}", got.map_err(|_| "a panic"))),
                    }
                }
            }
            cx.transitions(1);
            match catch_unwind(AssertUnwindSafe(&mut step)) {
                Ok(Ok(v)) => all.extend(v),
                Ok(Err(x)) => return Err(format!("frame {i} failed with {x:?} although the engine works again")),
                Err(_) => return Err(format!("frame {i} panicked although the engine works again")),
            }
        }
        if synthesis {
            all.extend(bits(&vr(syn.flush())));
        } else {
            let mut f = vec![Complex32::new(5.0, 6.0); n];
            all.push(an.next_frame(&mut f).map_err(|x| format!("{x:?}"))? as u64);
        }
        Ok(all)
    };
    let (want, got) = (play(false)?, play(true)?);
    match want.iter().zip(&got).position(|(a, b)| a != b) {
        Some(i) => Err(format!("value {i} differs from that of a stream whose engine never failed")),
        None if want.len() != got.len() => Err("another number of values than from a stream whose engine never failed".into()),
        None => Ok(how.iter().any(|h| *h != 0)),
    }
}

fn run(eng: &Eng) {
    let nmax = eng.pick3(6, 24, 100);
    let depth = eng.pick3(2, 3, 5);
    eng.note("bounds", format!("all engine calls of every routine for lengths 1..={nmax} and 32, 100; every history of {depth} steps"));
    let lens: &'static [usize] = Vec::leak((1..=nmax).chain([32, 100]).collect());
    fn units<T: Num + RealFftNum>(eng: &Eng, out: &mut Vec<Unit<'static>>, rs: &'static [Routine<T>], lens: &'static [usize], depth: usize) {
        for r in rs {
            out.push(Box::new(move |cx| {
                for n in lens {
                    cx.case(|| format!("{}/{}/n={n}", T::NAME, r.name), || one(cx, r, *n));
                    cx.case(|| format!("{}/memory/{}/n={n}", T::NAME, r.name), || memory(r, *n));
                }
            }));
        }
        for i in 0..rs.len() {
            for j in i + 1..rs.len() {
                // Every pair of routines that keep something between calls, neighbours otherwise.
                let keeps = |k: usize| rs[k].name.starts_with("planner") || rs[k].name.ends_with("packed");
                if (keeps(i) && keeps(j)) || (j == i + 1 && !eng.small()) {
                    out.push(Box::new(move |cx| histories(cx, rs, [i, j], [6, 4], depth)));
                }
            }
        }
    }
    let mut all: Vec<Unit<'static>> = vec![];
    units(eng, &mut all, Vec::leak(routines::<f32>()), lens, depth);
    units(eng, &mut all, Vec::leak(routines::<f64>()), lens, depth);
    units(eng, &mut all, Vec::leak(short_time()), lens, depth);
    let (sn, sk) = eng.pick3((3, 3), (6, 5), (9, 7));
    eng.note("streams", format!("{sk} frames, each engine call failing, panicking, both or neither before it works, windows 1..={sn} x hops 1..={}", sn + 1));
    for n in 1..=sn {
        for hop in 1..=sn + 1 {
            all.push(Box::new(move |cx| {
                for synthesis in [false, true] {
                    for code in 0..4usize.pow(sk as u32) {
                        let how: Vec<usize> = (0..sk).map(|i| code / 4usize.pow(i as u32) % 4).collect();
                        cx.case(|| format!("stream/synthesis={synthesis}/n={n}/hop={hop}/{how:?}"), || stream(cx, synthesis, n, hop, &how));
                    }
                }
            }));
        }
    }
    eng.run_units(all);
    if std::env::var("KMC_STAT").is_ok() {
        eprintln!("max deviation/tolerance = {}", stat_max());
    }
}

fn main() {
    kmc_engine::main_with(&[DEF]);
}

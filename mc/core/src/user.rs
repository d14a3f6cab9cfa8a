//! An engine of the user's that fails or panics at a chosen call, and every routine that is built
//! on an engine, each on a fixed input.
use crate::common::*;
use kofft::rfft::*;
use kofft::stft;
use std::cell::{Cell, RefCell};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub const ERRORS: [FftError; 6] = [
    FftError::EmptyInput,
    FftError::NonPowerOfTwoNoStd,
    FftError::MismatchedLengths,
    FftError::InvalidStride,
    FftError::InvalidHopSize,
    FftError::InvalidValue,
];
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Fault {
    Error(FftError),
    /// This error, and another one at every call after it.
    Broken(FftError),
    Panic,
}
/// An engine of the user's: only the methods that the trait requires, no overrides.
pub struct User<T: Num> {
    pub inner: ScalarFftImpl<T>,
    pub calls: Cell<usize>,
    pub at: Cell<Option<(usize, Fault)>>,
    pub seen: RefCell<Option<Vec<u64>>>,
}
impl<T: Num> User<T> {
    pub fn new() -> Self {
        User { inner: ScalarFftImpl::default(), calls: Cell::new(0), at: Cell::new(None), seen: RefCell::new(None) }
    }
    pub fn look(&self, b: &[Complex<T>]) {
        if let Some(v) = self.seen.borrow_mut().as_mut() {
            for x in b {
                v.push(x.re.to().to_bits());
                v.push(x.im.to().to_bits());
            }
        }
    }
    pub fn gate(&self, bufs: &mut [&mut [Complex<T>]]) -> Result<(), FftError> {
        let k = self.calls.get();
        self.calls.set(k + 1);
        for b in bufs.iter() {
            self.look(b);
        }
        match self.at.get() {
            Some((at, f)) if at == k || at < k && matches!(f, Fault::Broken(_)) => {
                for b in bufs.iter_mut() {
                    for (i, v) in b.iter_mut().enumerate() {
                        *v = Complex::new(T::of(1e9 + i as f64), T::of(f64::NAN));
                    }
                }
                match f {
                    Fault::Error(e) => Err(e),
                    Fault::Broken(e) if at == k => Err(e),
                    Fault::Broken(e) => Err(ERRORS[(ERRORS.iter().position(|x| *x == e).unwrap() + 1) % ERRORS.len()]),
                    Fault::Panic => std::panic::panic_any("the engine's own panic"),
                }
            }
            _ => Ok(()),
        }
    }
}
impl<T: Num> FftImpl<T> for User<T> {
    fn fft(&self, i: &mut [Complex<T>]) -> Result<(), FftError> {
        self.gate(&mut [i])?;
        self.inner.fft(i)
    }
    fn ifft(&self, i: &mut [Complex<T>]) -> Result<(), FftError> {
        self.gate(&mut [i])?;
        self.inner.ifft(i)
    }
    fn fft_strided(&self, i: &mut [Complex<T>], s: usize, b: &mut [Complex<T>]) -> Result<(), FftError> {
        self.gate(&mut [i, b])?;
        self.inner.fft_strided(i, s, b)
    }
    fn ifft_strided(&self, i: &mut [Complex<T>], s: usize, b: &mut [Complex<T>]) -> Result<(), FftError> {
        self.gate(&mut [i, b])?;
        self.inner.ifft_strided(i, s, b)
    }
    fn fft_out_of_place_strided(&self, i: &[Complex<T>], a: usize, o: &mut [Complex<T>], b: usize) -> Result<(), FftError> {
        self.gate(&mut [o])?;
        self.inner.fft_out_of_place_strided(i, a, o, b)
    }
    fn ifft_out_of_place_strided(&self, i: &[Complex<T>], a: usize, o: &mut [Complex<T>], b: usize) -> Result<(), FftError> {
        self.gate(&mut [o])?;
        self.inner.ifft_out_of_place_strided(i, a, o, b)
    }
    fn fft_with_strategy(&self, i: &mut [Complex<T>], s: FftStrategy) -> Result<(), FftError> {
        self.gate(&mut [i])?;
        self.inner.fft_with_strategy(i, s)
    }
}

/// The objects a caller keeps.
pub struct Objects<T: Num + RealFftNum> {
    pub e: User<T>,
    pub p: RfftPlanner<T>,
}
impl<T: Num + RealFftNum> Objects<T> {
    pub fn new() -> Self {
        Objects { e: User::new(), p: RfftPlanner::new() }
    }
}
/// A routine at length n, on a fixed input: Ok(values), or the error with what must still hold
/// about the caller's data checked (`Err((error, complaint))`).
pub type Out = Result<Vec<f64>, (FftError, Option<String>)>;
pub struct Routine<T: Num + RealFftNum> {
    pub name: &'static str,
    pub run: Box<dyn Fn(&mut Objects<T>, usize) -> Out + Send + Sync>,
    /// The mathematically defined result, where this check is the only one that knows it.
    pub want: Option<fn(usize) -> Vec<f64>>,
}
pub fn input<T: Num>(n: usize) -> Vec<Complex<T>> {
    cv(&refs::cprobe(n, 61))
}
pub fn reals<T: Num>(n: usize) -> Vec<T> {
    rv(&refs::probe(n, 62))
}
pub fn flat<T: Num>(v: &[Complex<T>]) -> Vec<f64> {
    v.iter().flat_map(|x| [x.re.to(), x.im.to()]).collect()
}
pub fn flat_c(v: &[C]) -> Vec<f64> {
    v.iter().flat_map(|x| [x.0, x.1]).collect()
}
pub fn plain(r: Result<(), FftError>, v: Vec<f64>) -> Out {
    r.map(|_| v).map_err(|x| (x, None))
}
pub fn want_fft(n: usize) -> Vec<f64> {
    flat_c(&refs::fft(&refs::cprobe(n, 61)))
}
pub fn want_ifft(n: usize) -> Vec<f64> {
    flat_c(&refs::idft(&refs::cprobe(n, 61)))
}
pub fn half_spectrum<T: Num>(n: usize) -> Vec<Complex<T>> {
    let x: Vec<C> = refs::probe(n, 63).into_iter().map(|v| (v, 0.0)).collect();
    cv(&refs::fft(&x)[..n / 2 + 1])
}
pub fn want_strided(n: usize, f: fn(&[C]) -> Vec<C>) -> Vec<f64> {
    let mut x = refs::cprobe(3 * n, 61);
    let y: Vec<C> = (0..n).map(|i| x[3 * i]).collect();
    for (i, v) in f(&y).into_iter().enumerate() {
        x[3 * i] = v;
    }
    flat_c(&x)
}
pub fn routines<T: Num + RealFftNum>() -> Vec<Routine<T>> {
    let mut v: Vec<Routine<T>> = Vec::new();
    macro_rules! r {
        ($name:expr, $want:expr, |$o:ident, $n:ident| $body:expr) => {
            v.push(Routine { name: $name, run: Box::new(|$o: &mut Objects<T>, $n: usize| $body), want: $want })
        };
    }
    r!("out_of_place", Some(want_fft), |o, n| {
        let x = input::<T>(n);
        let mut y = vec![Complex::new(T::of(7.0), T::of(8.0)); n];
        let r = o.e.fft_out_of_place(&x, &mut y);
        plain(r, flat(&y))
    });
    r!("out_of_place_inverse", Some(want_ifft), |o, n| {
        let x = input::<T>(n);
        let mut y = vec![Complex::new(T::of(7.0), T::of(8.0)); n];
        let r = o.e.ifft_out_of_place(&x, &mut y);
        plain(r, flat(&y))
    });
    r!("strided_alloc", Some(|n| want_strided(n, refs::fft)), |o, n| {
        let mut x = input::<T>(3 * n);
        let r = o.e.fft_strided_alloc(&mut x, 3);
        plain(r, flat(&x))
    });
    r!("strided_alloc_inverse", Some(|n| want_strided(n, refs::idft)), |o, n| {
        let mut x = input::<T>(3 * n);
        let r = o.e.ifft_strided_alloc(&mut x, 3);
        plain(r, flat(&x))
    });
    macro_rules! split {
        ($name:expr, $want:expr, $m:ident) => {
            r!($name, Some($want), |o, n| {
                let x = input::<T>(n);
                let (mut re, mut im): (Vec<T>, Vec<T>) = x.iter().map(|c| (c.re, c.im)).unzip();
                match o.e.$m(&mut re, &mut im) {
                    Ok(()) => Ok(re.iter().zip(&im).flat_map(|(a, b)| [a.to(), b.to()]).collect()),
                    Err(er) => {
                        let same = x.iter().zip(re.iter().zip(&im)).all(|(c, (a, b))| c.re.to() == a.to() && c.im.to() == b.to());
                        Err((er, (!same).then(|| "the parts were changed although the engine failed".into())))
                    }
                }
            })
        };
    }
    split!("split", want_fft, fft_split);
    split!("split_inverse", want_ifft, ifft_split);
    macro_rules! batches {
        ($name:expr, $f:path, $each:ident) => {
            r!($name, None, |o, n| {
                let x: Vec<Vec<Complex<T>>> = (0..4).map(|i| cv(&refs::cprobe(n + i % 2, 70 + i as u64))).collect();
                let mut b = x.clone();
                let kept = |b: &[Vec<Complex<T>>]| b.len() == 4 && b.iter().zip(&x).all(|(b, x)| b.len() == x.len());
                let res = catch_unwind(AssertUnwindSafe(|| $f(&o.e, &mut b)));
                let res = match res {
                    Err(p) if kept(&b) => std::panic::resume_unwind(p),
                    Err(_) => std::panic::panic_any("the batch lost an item when the engine panicked"),
                    Ok(r) => r,
                };
                match res {
                    Ok(()) => Ok(b.iter().flat_map(|v| flat(v)).collect()),
                    Err(er) => {
                        // Every batch is transformed or untouched, but for the one that failed.
                        let odd = (0..4)
                            .filter(|i| {
                                let mut y = x[*i].clone();
                                let _ = o.e.inner.$each(&mut y);
                                b[*i].len() != y.len() || !(bits_eq(&b[*i], &x[*i]) || bits_eq(&b[*i], &y))
                            })
                            .count();
                        if !kept(&b) {
                            return Err((er, Some("an item of the batch changed its length".into())));
                        }
                        Err((er, (odd > 1).then(|| format!("{odd} batches are neither transformed nor untouched"))))
                    }
                }
            })
        };
    }
    batches!("batch", batch, fft);
    batches!("batch_inverse", batch_inverse, ifft);
    batches!("multi_channel", multi_channel, fft);
    batches!("multi_channel_inverse", multi_channel_inverse, ifft);
    macro_rules! real {
        ($name:expr, |$o:ident, $x:ident, $y:ident, $s:ident| $call:expr) => {
            r!($name, None, |$o, n| {
                let n = 2 * n;
                let mut $x = reals::<T>(n);
                let mut $y = vec![Complex::new(T::of(3.0), T::of(4.0)); n / 2 + 1];
                #[allow(unused_mut, unused_variables)]
                let mut $s = vec![Complex::new(T::of(5.0), T::of(6.0)); n / 2];
                let r = $call;
                plain(r, flat(&$y))
            })
        };
    }
    macro_rules! inverse {
        ($name:expr, |$o:ident, $x:ident, $y:ident, $s:ident| $call:expr) => {
            r!($name, None, |$o, n| {
                let n = 2 * n;
                let mut $x = half_spectrum::<T>(n);
                let mut $y = vec![T::of(3.0); n];
                #[allow(unused_mut, unused_variables)]
                let mut $s = vec![Complex::new(T::of(5.0), T::of(6.0)); n / 2];
                let r = $call;
                plain(r, vr(&$y))
            })
        };
    }
    real!("rfft", |o, x, y, s| o.e.rfft(&mut x, &mut y));
    real!("rfft_with_scratch", |o, x, y, s| o.e.rfft_with_scratch(&mut x, &mut y, &mut s));
    real!("planner_rfft", |o, x, y, s| o.p.rfft(&o.e, &mut x, &mut y));
    real!("planner_rfft_with_scratch", |o, x, y, s| o.p.rfft_with_scratch(&o.e, &mut x, &mut y, &mut s));
    real!("rfft_packed", |o, x, y, s| rfft_packed(&mut o.p, &o.e, &mut x, &mut y, &mut s));
    inverse!("irfft", |o, x, y, s| o.e.irfft(&mut x, &mut y));
    inverse!("irfft_with_scratch", |o, x, y, s| o.e.irfft_with_scratch(&mut x, &mut y, &mut s));
    inverse!("planner_irfft", |o, x, y, s| o.p.irfft(&o.e, &mut x, &mut y));
    inverse!("planner_irfft_with_scratch", |o, x, y, s| o.p.irfft_with_scratch(&o.e, &mut x, &mut y, &mut s));
    inverse!("irfft_packed", |o, x, y, s| irfft_packed(&mut o.p, &o.e, &mut x, &mut y, &mut s));
    v
}
pub fn short_time() -> Vec<Routine<f32>> {
    let mut v: Vec<Routine<f32>> = Vec::new();
    macro_rules! r {
        ($name:expr, |$o:ident, $n:ident| $body:expr) => {
            v.push(Routine { name: $name, run: Box::new(|$o: &mut Objects<f32>, $n: usize| $body), want: None })
        };
    }
    fn frames(n: usize, k: usize) -> Vec<Vec<Complex32>> {
        (0..k).map(|i| cv(&refs::cprobe(n, 80 + i as u64))).collect()
    }
    r!("stft", |o, n| {
        let x = reals::<f32>(3 * n);
        let mut f = vec![vec![Complex32::new(1.0, 2.0); n]; 3];
        let r = stft::stft(&x, &reals::<f32>(n), n, &mut f, &o.e);
        plain(r, f.iter().flat_map(|v| flat(v)).collect())
    });
    r!("istft", |o, n| {
        let mut f = frames(n, 4);
        let (mut out, mut s) = (vec![9.0; 4 * n], vec![9.0; 4 * n]);
        let r = stft::istft(&mut f, &reals::<f32>(n), n.div_ceil(2), &mut out, &mut s, &o.e);
        plain(r, vr(&out))
    });
    r!("frame", |o, n| {
        let mut f = vec![Complex32::new(1.0, 2.0); n];
        let r = stft::frame(&reals::<f32>(3 * n), &reals::<f32>(n), n / 2, &mut f, &o.e);
        plain(r, flat(&f))
    });
    r!("inverse_frame", |o, n| {
        let mut f = frames(n, 1).remove(0);
        let mut out = reals::<f32>(2 * n);
        let before = out.clone();
        match stft::inverse_frame(&mut f, &reals::<f32>(n), n / 2, &mut out, &o.e) {
            Ok(()) => Ok(vr(&out)),
            Err(er) => Err((er, (out != before).then(|| "a failed frame was added to the output".into()))),
        }
    });
    r!("analysis_stream", |o, n| {
        let (x, w) = (reals::<f32>(3 * n), reals::<f32>(n));
        let mut st = stft::StftStream::new(&x, &w, n, &o.e).map_err(|x| (x, None))?;
        let mut all = vec![];
        let mut f = vec![Complex32::new(0.0, 0.0); n];
        while st.next_frame(&mut f).map_err(|x| (x, None))? {
            all.extend(flat(&f));
        }
        Ok(all)
    });
    r!("synthesis_stream", |o, n| {
        let mut st = stft::IstftStream::new(n, n.div_ceil(2), reals::<f32>(n), &o.e).map_err(|x| (x, None))?;
        let mut all = vec![];
        for f in frames(n, 4) {
            all.extend(vr(st.push_frame(&f).map_err(|x| (x, None))?));
        }
        all.extend(vr(st.flush()));
        Ok(all)
    });
    v
}

pub fn bits(v: &[f64]) -> Vec<u64> {
    v.iter().map(|x| x.to_bits()).collect()
}
/// Runs the routine with `fault` armed at call `at`; tells what must not happen.
pub fn faulty<T: Num + RealFftNum>(o: &mut Objects<T>, r: &Routine<T>, n: usize, at: usize, fault: Fault) -> Result<(), String> {
    o.e.calls.set(0);
    o.e.at.set(Some((at, fault)));
    let got = catch_unwind(AssertUnwindSafe(|| (r.run)(o, n)));
    o.e.at.set(None);
    if o.e.calls.get() <= at {
        return Err(format!("call {at} of the engine was not made this time"));
    }
    match (fault, got) {
        (Fault::Panic, Err(p)) => match p.downcast_ref::<&'static str>() {
            Some(&"the engine's own panic") => Ok(()),
            _ => Err("another panic".into()),
        },
        (Fault::Panic, Ok(_)) => Err(format!("the engine's panic at call {at} was swallowed")),
        (_, Err(_)) => Err(format!("panicked when the engine failed at call {at}")),
        (Fault::Error(x) | Fault::Broken(x), Ok(Ok(_))) => Err(format!("the engine's error {x:?} at call {at} was swallowed")),
        (Fault::Error(x) | Fault::Broken(x), Ok(Err((y, complaint)))) => match complaint {
            _ if x != y => Err(format!("the engine's error {x:?} at call {at} was reported as {y:?}")),
            Some(c) => Err(format!("engine failing at call {at}: {c}")),
            None => Ok(()),
        },
    }
}
pub fn good<T: Num + RealFftNum>(o: &mut Objects<T>, r: &Routine<T>, n: usize) -> Result<(Vec<f64>, usize), String> {
    o.e.calls.set(0);
    let v = (r.run)(o, n).map_err(|x| format!("failed with {:?} although the engine works", x.0))?;
    Ok((v, o.e.calls.get()))
}

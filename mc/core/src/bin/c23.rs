//! C23: no input makes the library read or write outside the buffers it was given, use memory it
//! gave back, or let the result depend on memory nobody wrote.
use kmc_core::common::*;
use kmc_core::entries::*;
use kmc_core::memory::{fenced, Place, Watch};
use kofft::ndfft::*;
use kofft::rfft::*;
use kofft::{cepstrum, czt, dct, dst, goertzel, hartley, hilbert, stft, wavelet, window};

#[global_allocator]
static A: Watch = Watch;

pub const DEF: CheckDef = CheckDef {
    id: "C23",
    level: Level::Exploration,
    rule: "one case = (element type, routine, length): the routine runs with every allocation flush against an inaccessible page behind it, then before it, new memory filled with three patterns, freed memory inaccessible; the result must be the same bit for bit each time. 'slice' cases put the buffer at every offset 0..8 of a larger one whose other elements must not change; 'reused' cases make two calls on one engine, all pairs of routines and lengths from a list",
    assumptions: &["granularity of the fences: an object that ends before a multiple of its alignment leaves no gap for the element types used here"],
    hang_s: 120,
    run,
};

const FENCES: [(Place, u8); 4] = [(Place::End, 0xff), (Place::Start, 0x7f), (Place::End, 0x00), (Place::Start, 0xff)];

/// The same bits under every placement and fill, and without fences.
fn same<R: PartialEq>(f: impl Fn() -> R, bits: impl Fn(&R) -> Vec<u64>) -> Result<bool, String> {
    let want = bits(&f());
    for (place, fill) in FENCES {
        // The result itself lives in fenced memory: take its bits before it is dropped.
        let r = fenced(place, fill, &f);
        if bits(&r) != want {
            return Err(format!("the result depends on where buffers lie or what fresh memory holds ({place:?}, fill {fill:#x})"));
        }
    }
    Ok(!want.is_empty())
}
fn cbits<T: Num>(r: &Result<Vec<Complex<T>>, FftError>) -> Vec<u64> {
    match r {
        Ok(v) => v.iter().flat_map(|c| [c.re.to().to_bits(), c.im.to().to_bits()]).collect(),
        Err(_) => vec![],
    }
}
fn rbits(r: &Vec<f32>) -> Vec<u64> {
    r.iter().map(|v| v.to_bits() as u64).collect()
}
fn tables<T: Num>(cx: &Cx, n: usize, list: &[Entry<T>], dir: &str) {
    let x = cv::<T>(&refs::cprobe(n, 230));
    for (name, f) in list {
        cx.case(
            || format!("{}/{dir}/{name}/n={n}", T::NAME),
            || {
                // The input lies in fenced memory, too.
                same(|| f(&x.to_vec()), cbits)
            },
        );
    }
}
/// Strides: data of exactly the length that is needed, and every scratch length that fits.
fn strided<T: Num>(cx: &Cx, n: usize, stride: usize) {
    let x = cv::<T>(&refs::cprobe(n * stride, 231));
    type F<T> = fn(&[Complex<T>], usize, usize) -> R<T>;
    let forms: [(&str, F<T>); 6] = [
        ("fft", |x, n, s| {
            let (mut v, mut b) = (x.to_vec(), Vec::with_capacity(n));
            b.resize(n, Complex::zero());
            ScalarFftImpl::<T>::default().fft_strided(&mut v, s, &mut b)?;
            Ok(v)
        }),
        ("ifft", |x, n, s| {
            let (mut v, mut b) = (x.to_vec(), Vec::with_capacity(n));
            b.resize(n, Complex::zero());
            ScalarFftImpl::<T>::default().ifft_strided(&mut v, s, &mut b)?;
            Ok(v)
        }),
        ("fft-alloc", |x, _, s| {
            let mut v = x.to_vec();
            ScalarFftImpl::<T>::default().fft_strided_alloc(&mut v, s)?;
            Ok(v)
        }),
        ("ifft-alloc", |x, _, s| {
            let mut v = x.to_vec();
            ScalarFftImpl::<T>::default().ifft_strided_alloc(&mut v, s)?;
            Ok(v)
        }),
        ("default-alloc", |x, _, s| {
            let mut v = x.to_vec();
            Minimal::<T>::default().fft_strided_alloc(&mut v, s)?;
            Minimal::<T>::default().ifft_strided_alloc(&mut v, s)?;
            Ok(v)
        }),
        ("oop", |x, n, s| {
            let mut v = vec![Complex::zero(); x.len()];
            ScalarFftImpl::<T>::default().fft_out_of_place_strided(x, s, &mut v, s)?;
            let mut w = vec![Complex::zero(); n];
            ScalarFftImpl::<T>::default().ifft_out_of_place_strided(&v, s, &mut w, 1)?;
            Ok(w)
        }),
    ];
    for (name, f) in forms {
        cx.case(|| format!("{}/strided/{name}/n={n}/stride={stride}", T::NAME), || same(|| f(&x.to_vec(), n, stride), cbits));
    }
}
fn real<T: Num + RealFftNum>(cx: &Cx, n: usize) {
    let x = rv::<T>(&refs::probe(n, 232));
    let s = cv::<T>(&refs::cprobe(n / 2 + 1, 233));
    let real = |v: Vec<T>| -> Vec<Complex<T>> { v.into_iter().map(|r| Complex::new(r, T::zero())).collect() };
    type F<T> = fn(&[T], &[Complex<T>]) -> Result<(Vec<Complex<T>>, Vec<T>), FftError>;
    let forms: [(&str, F<T>); 5] = [
        ("rfft", |x, _| {
            let mut o = vec![Complex::zero(); x.len() / 2 + 1];
            ScalarFftImpl::<T>::default().rfft(&mut x.to_vec(), &mut o)?;
            Ok((o, vec![]))
        }),
        ("irfft", |x, s| {
            let mut o = vec![T::zero(); x.len()];
            ScalarFftImpl::<T>::default().irfft(&mut s.to_vec(), &mut o)?;
            Ok((vec![], o))
        }),
        ("planned", |x, s| {
            let (mut p, f) = (RfftPlanner::<T>::new(), ScalarFftImpl::<T>::default());
            let mut o = vec![Complex::zero(); x.len() / 2 + 1];
            let mut y = vec![T::zero(); x.len()];
            // The scratch buffer grows and shrinks between the calls.
            for n in [2, x.len()] {
                let mut o = vec![Complex::zero(); n / 2 + 1];
                p.rfft(&f, &mut x.iter().copied().chain([T::one(); 2]).take(n).collect::<Vec<T>>(), &mut o)?;
            }
            p.rfft(&f, &mut x.to_vec(), &mut o)?;
            p.irfft(&f, &mut s.to_vec(), &mut y)?;
            Ok((o, y))
        }),
        ("scratch", |x, s| {
            let f = ScalarFftImpl::<T>::default();
            let mut b = vec![Complex::zero(); x.len() / 2];
            let mut o = vec![Complex::zero(); x.len() / 2 + 1];
            let mut y = vec![T::zero(); x.len()];
            f.rfft_with_scratch(&mut x.to_vec(), &mut o, &mut b)?;
            f.irfft_with_scratch(&mut s.to_vec(), &mut y, &mut b)?;
            Ok((o, y))
        }),
        ("packed", |x, _| {
            let f = ScalarFftImpl::<T>::default();
            let mut p = RfftPlanner::<T>::new();
            let mut b = vec![Complex::zero(); x.len() / 2];
            let mut o = vec![Complex::zero(); x.len() / 2 + 1];
            let mut y = vec![T::zero(); x.len()];
            rfft_packed(&mut p, &f, &mut x.to_vec(), &mut o, &mut b)?;
            irfft_packed(&mut p, &f, &mut o.clone(), &mut y, &mut b)?;
            Ok((o, y))
        }),
    ];
    for (name, f) in forms {
        cx.case(
            || format!("{}/real/{name}/n={n}", T::NAME),
            || {
                same(
                    || {
                        f(&x.to_vec(), &s.to_vec()).map(|(mut a, b)| {
                            a.extend(real(b));
                            a
                        })
                    },
                    cbits,
                )
            },
        );
    }
}
/// The buffer is a part of a larger one, at every offset: the rest does not change, the part is
/// what it is elsewhere.
fn slices<T: Num + RealFftNum>(cx: &Cx, n: usize, max_offset: usize) {
    type F<T> = fn(&mut [Complex<T>]) -> Result<(), FftError>;
    let forms: [(&str, F<T>); 9] = [
        ("fft", |v| ScalarFftImpl::<T>::default().fft(v)),
        ("ifft", |v| ScalarFftImpl::<T>::default().ifft(v)),
        ("stockham", |v| ScalarFftImpl::<T>::default().stockham_fft(v)),
        ("radix4", |v| ScalarFftImpl::<T>::default().fft_radix4(v)),
        ("plan2", |v| FftPlan::<T>::new(v.len(), FftStrategy::Radix2).fft(v)),
        ("plan4", |v| FftPlan::<T>::new(v.len(), FftStrategy::Radix4).ifft(v)),
        ("strided", |v| {
            let mut b = v.to_vec();
            ScalarFftImpl::<T>::default().fft_strided(v, 1, &mut b)
        }),
        ("strided-alloc", |v| ScalarFftImpl::<T>::default().ifft_strided_alloc(v, 1)),
        ("parallel", |v| fft_parallel(v)),
    ];
    let whole = cv::<T>(&refs::cprobe(n + max_offset + 9, 234));
    for (name, f) in forms {
        cx.case(
            || format!("{}/slice/{name}/n={n}", T::NAME),
            || {
                for off in 0..=max_offset {
                    let mut want = whole[off..off + n].to_vec();
                    let ok = f(&mut want).is_ok();
                    for (place, fill) in &FENCES[..2] {
                        fenced(*place, *fill, || {
                            let mut w = whole.clone();
                            if f(&mut w[off..off + n]).is_ok() != ok {
                                return Err(format!("refused or accepted depending on the offset {off}"));
                            }
                            if !bits_eq(&w[..off], &whole[..off]) || !bits_eq(&w[off + n..], &whole[off + n..]) {
                                return Err(format!("writes outside the buffer (offset {off})"));
                            }
                            if !bits_eq(&w[off..off + n], &want) {
                                return Err(format!("the result depends on the alignment of the buffer (offset {off})"));
                            }
                            Ok(())
                        })?;
                    }
                }
                Ok(true)
            },
        );
    }
    // Structure-of-arrays: two buffers with independent alignment.
    cx.case(
        || format!("{}/slice/split/n={n}", T::NAME),
        || {
            let a = rv::<T>(&refs::probe(n + max_offset + 9, 235));
            let b = rv::<T>(&refs::probe(n + max_offset + 9, 236));
            let bits = |v: &[T]| -> Vec<u64> { v.iter().map(|x| x.to().to_bits()).collect() };
            for oa in 0..=max_offset {
                for ob in [0, 1, oa] {
                    for inverse in [false, true] {
                        let go = |p: &mut [T], q: &mut [T]| {
                            let f = ScalarFftImpl::<T>::default();
                            if inverse { f.ifft_split(p, q) } else { f.fft_split(p, q) }.is_ok()
                        };
                        let (mut p, mut q) = (a[oa..oa + n].to_vec(), b[ob..ob + n].to_vec());
                        let ok = go(&mut p, &mut q);
                        fenced(Place::End, 0xff, || {
                            let (mut u, mut v) = (a.clone(), b.clone());
                            if go(&mut u[oa..oa + n], &mut v[ob..ob + n]) != ok {
                                return Err(format!("refused or accepted depending on the offsets {oa}, {ob}"));
                            }
                            if bits(&u[oa..oa + n]) != bits(&p) || bits(&v[ob..ob + n]) != bits(&q) {
                                return Err(format!("the result depends on the alignment (offsets {oa}, {ob})"));
                            }
                            u[oa..oa + n].copy_from_slice(&a[oa..oa + n]);
                            v[ob..ob + n].copy_from_slice(&b[ob..ob + n]);
                            if bits(&u) != bits(&a) || bits(&v) != bits(&b) {
                                return Err(format!("writes outside the buffers (offsets {oa}, {ob})"));
                            }
                            Ok(())
                        })?;
                    }
                }
            }
            Ok(true)
        },
    );
}
/// Two calls on one engine: what the first left behind (tables, scratch buffers of its length)
/// does not lead the second astray.
fn reused<T: Num>(cx: &Cx, a: usize, b: usize) {
    type F<T> = fn(&ScalarFftImpl<T>, &mut [Complex<T>]) -> Result<(), FftError>;
    fn split<T: Num>(f: &ScalarFftImpl<T>, v: &mut [Complex<T>], inverse: bool) -> Result<(), FftError> {
        let (mut re, mut im) = split_of(v);
        if inverse { f.ifft_split(&mut re, &mut im) } else { f.fft_split(&mut re, &mut im) }?;
        v.copy_from_slice(&join(&re, &im));
        Ok(())
    }
    let forms: [(&str, F<T>); 7] = [
        ("fft", |f, v| f.fft(v)),
        ("ifft", |f, v| f.ifft(v)),
        ("stockham", |f, v| f.stockham_fft(v)),
        ("radix4", |f, v| f.fft_radix4(v)),
        ("split", |f, v| split(f, v, false)),
        ("isplit", |f, v| split(f, v, true)),
        ("strided", |f, v| f.fft_strided_alloc(v, 1)),
    ];
    let (x, y) = (cv::<T>(&refs::cprobe(a, 238)), cv::<T>(&refs::cprobe(b, 239)));
    for (n1, f1) in &forms {
        for (n2, f2) in &forms {
            cx.case(
                || format!("{}/reused/{n1}/n={a}/{n2}/n={b}", T::NAME),
                || {
                    let go = |reuse: bool| -> R<T> {
                        let f = ScalarFftImpl::<T>::default();
                        if reuse {
                            let _ = f1(&f, &mut x.to_vec());
                        }
                        let mut v = y.to_vec();
                        f2(&f, &mut v)?;
                        Ok(v)
                    };
                    let want = cbits(&go(false));
                    for (place, fill) in &FENCES[..2] {
                        let r = fenced(*place, *fill, || go(true));
                        if cbits(&r) != want {
                            return Err(format!("the second call gives something else than on a fresh engine ({place:?}, fill {fill:#x})"));
                        }
                    }
                    Ok(true)
                },
            );
        }
    }
}
/// Everything else that takes a buffer, in exact-fit fenced memory.
fn rest(cx: &Cx, n: usize) {
    type F = fn(&[f32]) -> Vec<f32>;
    fn flat(v: Vec<Complex32>) -> Vec<f32> {
        v.into_iter().flat_map(|c| [c.re, c.im]).collect()
    }
    fn two(p: (Vec<f32>, Vec<f32>)) -> Vec<f32> {
        [p.0, p.1].concat()
    }
    let forms: &[(&str, F)] = &[
        ("dct1", dct::dct1),
        ("dct2", dct::dct2),
        ("dct3", dct::dct3),
        ("dct4", dct::dct4),
        ("dst1", dst::dst1),
        ("dst2", dst::dst2),
        ("dst3", dst::dst3),
        ("dst4", dst::dst4),
        ("dht", hartley::dht),
        ("hilbert", |x| hilbert::hilbert_analytic(x).map(flat).unwrap_or_default()),
        ("cepstrum", |x| cepstrum::real_cepstrum(x).unwrap_or_default()),
        ("czt", |x| czt::czt_f32(x, x.len() + 3, (0.8, -0.6), (1.0, 0.0)).into_iter().flat_map(|p| [p.0, p.1]).collect()),
        ("goertzel", |x| goertzel::goertzel_f32(x, 8.0, 1.0).into_iter().collect()),
        ("haar", |x| two(wavelet::haar_forward(x))),
        ("db2", |x| two(wavelet::db2_forward(x))),
        ("db4", |x| two(wavelet::db4_forward(x))),
        ("sym4", |x| two(wavelet::sym4_forward(x))),
        ("coif1", |x| two(wavelet::coif1_forward(x))),
        ("planned-dct2", |x| {
            let mut o = vec![0.0; x.len()];
            let _ = dct::DctPlanner::new().plan_dct2(x.len())(&mut x.to_vec(), &mut o);
            o
        }),
        ("windows", |x| [window::hann(x.len()), window::blackman(x.len()), window::kaiser(x.len(), 3.0)].concat()),
        ("complexvec", |x| {
            let c: Vec<Complex32> = x.iter().map(|v| Complex32::new(*v, -*v)).collect();
            let (mut re, mut im) = (vec![0.0; x.len()], vec![0.0; x.len()]);
            let s = complex32_to_split(&c, &mut re, &mut im);
            let mut back = c.clone();
            split_to_complex32(&s, &mut back);
            flat(back)
        }),
        ("stft", |x| {
            let f = ScalarFftImpl::<f32>::default();
            let mut out = vec![];
            for (win, hop) in [(1, 1), (4, 2), (5, 3), (8, 8), (3, 5)] {
                let mut frames = vec![vec![]; x.len().div_ceil(hop)];
                let w = window::hann(win);
                if stft::stft(x, &w, hop, &mut frames, &f).is_ok() {
                    out.extend(flat(frames.concat()));
                    let mut y = vec![0.0; x.len()];
                    let mut s = vec![0.0; x.len()];
                    if stft::istft(&mut frames, &w, hop, &mut y, &mut s, &f).is_ok() {
                        out.extend(y);
                    }
                }
                if let Ok(mut s) = stft::IstftStream::new(win, hop, w, &f) {
                    for _ in 0..4 {
                        let c: Vec<Complex32> = (0..win).map(|k| Complex32::new(k as f32, 1.0)).collect();
                        out.extend(s.push_frame(&c).unwrap());
                    }
                    out.extend(s.flush());
                }
            }
            out
        }),
        ("fft2d", |x| {
            let f = ScalarFftImpl::<f32>::default();
            let mut out = vec![];
            for rows in 1..=x.len().min(9) {
                let cols = x.len() / rows;
                let mut v: Vec<Complex32> = x[..rows * cols].iter().map(|v| Complex32::new(*v, 1.0)).collect();
                let mut s = vec![Complex32::new(0.0, 0.0); rows];
                let _ = fft2d_inplace(&mut v, rows, cols, &f, &mut s);
                out.extend(flat(v));
            }
            out
        }),
    ];
    fenced_forms(cx, "rest", n, forms);
}
type Form = fn(&[f32]) -> Vec<f32>;
fn fenced_forms(cx: &Cx, label: &str, n: usize, forms: &[(&str, Form)]) {
    let x: Vec<f32> = rv(&refs::probe(n, 237));
    for (name, f) in forms {
        cx.case(
            || format!("{label}/{name}/n={n}"),
            || {
                // Some routines have lengths they refuse by panicking: they do so everywhere.
                let run = || std::panic::catch_unwind(|| f(&x.to_vec())).unwrap_or_default();
                same(run, rbits)
            },
        );
    }
}
fn flat(v: Vec<Complex32>) -> Vec<f32> {
    v.into_iter().flat_map(|c| [c.re, c.im]).collect()
}
fn pair(p: (Vec<f32>, Vec<f32>)) -> Vec<f32> {
    [p.0, p.1].concat()
}
/// Runs `f` on the only thread of a pool: what it spreads over workers is fenced with it.
#[cfg(feature = "parallel")]
fn alone<R: Send>(f: impl FnOnce() -> R + Send) -> R {
    thread_local! {
        static POOL: rayon::ThreadPool = rayon::ThreadPoolBuilder::new().num_threads(1).build().unwrap();
    }
    use kmc_core::memory::{mode, with, OFF};
    let m = mode();
    // What the pool keeps for itself is allocated as usual.
    POOL.with(|p| with(OFF, || p.install(|| with(m, f))))
}
/// Those of the (window, hop) pairs that give no more frames than the fenced range has room for.
fn few(x: &[f32], pairs: &[(usize, usize)]) -> Vec<(usize, usize)> {
    pairs.iter().copied().filter(|p| x.len() / p.1 < 1100).collect()
}
/// Routines whose cost does not grow with the square of the length.
const LINEAR: &[(&str, Form)] = &[
    #[cfg(feature = "parallel")]
    ("stft-parallel", |x| {
        alone(|| {
            let f = ScalarFftImpl::<f32>::default();
            let mut out = vec![];
            for (win, hop) in few(x, &[(4, 2), (5, 3), (8, 8), (3, 5), (64, 32), (256, 64), (30, 100)]) {
                let mut frames = vec![vec![]; x.len().div_ceil(hop)];
                let w = window::hann(win);
                if stft::parallel(x, &w, hop, &mut frames, &f).is_ok() {
                    out.extend(flat(frames.concat()));
                    // Longer and shorter than the frames reach.
                    for len in [x.len(), x.len() + 2 * win, x.len() / 2] {
                        let mut y = vec![0.5; len];
                        if stft::inverse_parallel(&frames, &w, hop, &mut y, &f).is_ok() {
                            out.extend(y);
                        }
                    }
                }
            }
            out
        })
    }),
    ("stft-long", |x| {
        let f = ScalarFftImpl::<f32>::default();
        let mut out = vec![];
        for (win, hop) in few(x, &[(4, 2), (64, 32), (256, 64), (30, 100), (100, 33)]) {
            let mut frames = vec![vec![]; x.len().div_ceil(hop)];
            let w = window::hann(win);
            if stft::stft(x, &w, hop, &mut frames, &f).is_ok() {
                out.extend(flat(frames.concat()));
                for len in [x.len(), x.len() + 2 * win, x.len() / 2] {
                    let (mut y, mut s) = (vec![0.5; len], vec![0.25; len]);
                    if stft::istft(&mut frames.clone(), &w, hop, &mut y, &mut s, &f).is_ok() {
                        out.extend(y);
                    }
                }
            }
        }
        out
    }),
    ("stft-frames", |x| {
        let f = ScalarFftImpl::<f32>::default();
        let mut out = vec![];
        for (win, hop) in few(x, &[(1, 1), (4, 2), (5, 3), (3, 7), (64, 48)]) {
            let w = window::hamming(win);
            let mut y = vec![0.0; x.len()];
            let mut c = vec![Complex32::new(0.0, 0.0); win];
            for start in (0..x.len() + win).step_by(hop) {
                stft::frame(x, &w, start, &mut c, &f).unwrap();
                out.extend(flat(c.clone()));
                stft::inverse_frame(&mut c, &w, start, &mut y, &f).unwrap();
            }
            out.extend(y);
        }
        out
    }),
    ("stft-stream", |x| {
        let f = ScalarFftImpl::<f32>::default();
        let mut out = vec![];
        for (win, hop) in few(x, &[(1, 1), (4, 2), (5, 3), (3, 7), (64, 48), (128, 8)]) {
            let w = window::hamming(win);
            let mut c = vec![Complex32::new(0.0, 0.0); win];
            let mut s = stft::StftStream::new(x, &w, hop, &f).unwrap();
            let mut back = stft::IstftStream::new(win, hop, w.clone(), &f).unwrap();
            while s.next_frame(&mut c).unwrap() {
                out.extend(flat(c.clone()));
                out.extend(back.push_frame(&c).unwrap());
            }
            out.extend(back.flush());
        }
        out
    }),
    ("windows-all", |x| {
        let n = x.len();
        [
            window::hann(n),
            window::hamming(n),
            window::blackman(n),
            window::kaiser(n, 0.0),
            window::kaiser(n, 8.6),
            kofft::window_more::tukey(n, 0.0),
            kofft::window_more::tukey(n, 0.4),
            kofft::window_more::tukey(n, 1.0),
            kofft::window_more::bartlett(n),
            kofft::window_more::bohman(n),
            kofft::window_more::nuttall(n),
        ]
        .concat()
    }),
    ("wavelet-inverse", |x| {
        let (a, b) = x.split_at(x.len() / 2);
        let b = &b[..a.len()];
        [wavelet::haar_inverse(a, b), wavelet::db2_inverse(a, b), wavelet::db4_inverse(a, b), wavelet::sym4_inverse(a, b), wavelet::coif1_inverse(a, b)].concat()
    }),
    ("wavelet-forward", |x| {
        [
            pair(wavelet::haar_forward(x)),
            pair(wavelet::db2_forward(x)),
            pair(wavelet::db4_forward(x)),
            pair(wavelet::sym4_forward(x)),
            pair(wavelet::coif1_forward(x)),
        ]
        .concat()
    }),
    ("wavelet-multi", |x| {
        let mut out = vec![];
        type Up = fn(&[f32], usize) -> (Vec<f32>, Vec<Vec<f32>>);
        type Down = fn(&[f32], &[Vec<f32>]) -> Vec<f32>;
        let kinds: [(Up, Down); 5] = [
            (wavelet::haar_forward_multi, wavelet::haar_inverse_multi),
            (wavelet::db2_forward_multi, wavelet::db2_inverse_multi),
            (wavelet::db4_forward_multi, wavelet::db4_inverse_multi),
            (wavelet::sym4_forward_multi, wavelet::sym4_inverse_multi),
            (wavelet::coif1_forward_multi, wavelet::coif1_inverse_multi),
        ];
        for (up, down) in kinds {
            for levels in [0, 1, 2, 5] {
                let x = &x[..x.len() >> levels << levels];
                let (a, d) = up(x, levels);
                out.extend(down(&a, &d));
                out.extend(a);
                out.extend(d.concat());
            }
        }
        out
    }),
    ("wavelet-batch", |x| {
        let x = &x[..x.len() / 4 * 4];
        let rows = [x.to_vec(), x[..x.len() / 2].to_vec(), vec![]];
        let (a, d) = wavelet::batch_forward(&rows);
        let (e, g) = wavelet::db2_forward_batch(&rows);
        let (h, i) = wavelet::multi_level_forward_batch(&rows, 2, wavelet::haar_forward);
        [
            wavelet::batch_inverse(&a, &d).concat(),
            wavelet::db2_inverse_batch(&e, &g).concat(),
            wavelet::multi_level_inverse_batch(&h, &i, wavelet::haar_inverse).concat(),
            a.concat(),
            d.concat(),
            e.concat(),
            g.concat(),
            h.concat(),
        ]
        .concat()
    }),
    ("spectrogram", |x| {
        use kofft::visual::spectrogram as s;
        let go = || {
            let mut out = vec![];
            for (win, hop) in few(x, &[(2, 1), (4, 2), (5, 3), (64, 16), (256, 300)]) {
                if let Ok((m, max)) = s::stft_magnitudes(x, win, hop) {
                    out.push(max);
                    for row in &m {
                        out.extend(s::log_scale_bins(row, row.len()));
                        out.extend(s::log_scale_bins(row, row.len() / 2));
                    }
                }
            }
            out.extend(s::log_scale_bins(x, x.len()));
            out
        };
        #[cfg(feature = "parallel")]
        return alone(go);
        #[cfg(not(feature = "parallel"))]
        go()
    }),
    ("mel", |x| {
        let mut out = vec![];
        for filters in [0, 1, 3, 26] {
            out.extend(cepstrum::mel_filterbank(x, 16000.0, filters));
            for coeffs in 0..=filters {
                out.extend(cepstrum::mfcc(x, 44100.0, filters, coeffs).unwrap_or_default());
            }
        }
        let rows = [x.to_vec(), x[..x.len() / 2].to_vec(), vec![]];
        out.extend(cepstrum::mfcc_batch(&rows, 8000.0, 20, 13).unwrap_or_default().concat());
        out
    }),
    ("hilbert-long", |x| hilbert::hilbert_analytic(x).map(flat).unwrap_or_default()),
    ("cepstrum-long", |x| cepstrum::real_cepstrum(x).unwrap_or_default()),
    ("goertzel-long", |x| goertzel::goertzel_f32(x, 8000.0, 440.0).into_iter().collect()),
    ("czt-few", |x| czt::czt_f32(x, 3, (0.8, -0.6), (0.0, 1.0)).into_iter().flat_map(|p| [p.0, p.1]).collect()),
    ("flatten", |x| {
        let mut out = vec![];
        for (_, cols) in few(x, &[(1, 1), (1, 3), (1, 8), (1, 100)]) {
            let rows: Vec<Vec<Complex32>> = x.chunks(cols).map(|r| r.iter().map(|v| Complex32::new(*v, 2.0)).collect()).collect();
            if let Ok((v, _, _)) = flatten_2d(rows.clone()) {
                out.extend(flat(v));
            }
            let planes: Vec<Vec<Vec<Complex32>>> = rows.chunks(2).map(|p| p.to_vec()).collect();
            if let Ok((v, _, _, _)) = flatten_3d(planes) {
                out.extend(flat(v));
            }
        }
        out
    }),
    ("fft3d", |x| {
        let f = ScalarFftImpl::<f32>::default();
        let mut out = vec![];
        for (d, r) in [(1, 1), (1, 2), (2, 1), (2, 3), (3, 2), (4, 4)] {
            let c = x.len() / (d * r);
            let mut v: Vec<Complex32> = x[..d * r * c].iter().map(|v| Complex32::new(*v, -1.0)).collect();
            let z = Complex32::new(0.0, 0.0);
            let (mut t, mut p, mut q) = (vec![z; d], vec![z; r], vec![z; c]);
            let _ = fft3d_inplace(&mut v, d, r, c, &f, &mut Fft3dScratch { tube: &mut t, row: &mut p, col: &mut q });
            out.extend(flat(v));
        }
        out
    }),
    ("fft2d-thin", |x| {
        let f = ScalarFftImpl::<f32>::default();
        let mut out = vec![];
        for rows in [1, 2, 3, 4, 16, 30, 256] {
            for flip in [false, true] {
                let (mut r, mut c) = (rows, x.len() / rows);
                if flip {
                    std::mem::swap(&mut r, &mut c);
                }
                let mut v: Vec<Complex32> = x[..r * c].iter().map(|v| Complex32::new(*v, 1.0)).collect();
                let mut s = vec![Complex32::new(0.0, 0.0); r];
                let _ = fft2d_inplace(&mut v, r, c, &f, &mut s);
                out.extend(flat(v));
            }
        }
        out
    }),
    ("dst-planner", |x| {
        let mut p = dst::DstPlanner::<f32>::new();
        let n = x.len();
        let mut out = vec![];
        for n in [n, n / 2, n + 1] {
            out.extend(p.plan_dst2(n));
            out.extend(p.plan_dst3(n));
            out.extend(p.plan_dst4(n));
            out.extend(p.scratch(n).iter());
        }
        out
    }),
];
/// Batches of the routines that cost the square of the length.
const SQUARE: &[(&str, Form)] = &[
    ("batches", |x| {
        let mut out = vec![];
        let all: [fn(&mut [Vec<f32>]); 18] = [
            dct::batch_i,
            dct::batch_ii,
            dct::batch_iii,
            dct::batch_iv,
            dct::multi_channel_i,
            dct::multi_channel_ii,
            dct::multi_channel_iii,
            dct::multi_channel_iv,
            dst::batch_i,
            dst::batch_ii,
            dst::batch_iii,
            dst::batch_iv,
            dst::multi_channel_i,
            dst::multi_channel_ii,
            dst::multi_channel_iii,
            dst::multi_channel_iv,
            hartley::batch,
            hartley::multi_channel,
        ];
        for f in all {
            let mut rows = vec![x.to_vec(), x.iter().map(|v| v * 2.0).collect(), x[..x.len() / 2].to_vec(), x[..x.len().min(2)].to_vec()];
            f(&mut rows);
            out.extend(rows.concat());
        }
        out
    }),
    ("dct2-planned-twice", |x| {
        let mut p = dct::DctPlanner::new();
        let mut out = vec![];
        for n in [x.len(), x.len() / 2, x.len()] {
            let mut o = vec![0.0; n];
            let _ = p.plan_dct2(n)(&mut x[..n].to_vec(), &mut o);
            out.extend(o);
        }
        out
    }),
];

fn run(eng: &Eng) {
    kmc_core::memory::reserve();
    let (n1, n2, n3) = (eng.pick3(20, 80, 300), eng.pick3(12, 34, 100), eng.pick3(20, 70, 200));
    let long: Vec<usize> = extra_lengths(n1, eng.pick3(128, 2100, 20000));
    let mut units: Vec<Unit> = vec![];
    for n in (0..=n1).chain(long.clone()) {
        units.push(Box::new(move |cx| {
            tables::<f32>(cx, n, &entries(), "forward");
            tables::<f32>(cx, n, &entries32(), "forward");
            tables::<f32>(cx, n, &inverses(), "inverse");
            tables::<f32>(cx, n, &inverses32(), "inverse");
            tables::<f64>(cx, n, &entries(), "forward");
            tables::<f64>(cx, n, &inverses(), "inverse");
            if n <= 300 {
                tables::<W>(cx, n, &entries(), "forward");
                tables::<W>(cx, n, &inverses(), "inverse");
            }
            real::<f32>(cx, n);
            real::<f64>(cx, n);
        }));
    }
    // Far beyond the sizes of the caches, around the limits of narrow indices.
    for n in eng.pick3(vec![], vec![16_384usize, 65_535, 65_536, 65_537], vec![16_384, 32_768, 65_535, 65_536, 65_537, 70_000, 131_072, 131_073]) {
        units.push(Box::new(move |cx| tables::<f32>(cx, n, &entries(), "forward")));
        units.push(Box::new(move |cx| tables::<f32>(cx, n, &entries32(), "forward")));
        units.push(Box::new(move |cx| tables::<f32>(cx, n, &inverses32(), "inverse")));
        units.push(Box::new(move |cx| tables::<f64>(cx, n, &entries(), "forward")));
        units.push(Box::new(move |cx| tables::<f64>(cx, n, &inverses(), "inverse")));
        units.push(Box::new(move |cx| real::<f32>(cx, n)));
        units.push(Box::new(move |cx| real::<f64>(cx, n)));
    }
    for n in (0..=n2).chain([64, 100, 128, 256, 512]) {
        units.push(Box::new(move |cx| {
            for stride in 1..=4 {
                strided::<f32>(cx, n, stride);
                strided::<f64>(cx, n, stride);
            }
            slices::<f32>(cx, n, 8);
            slices::<f64>(cx, n, 4);
        }));
    }
    let pool: Vec<usize> = eng.pick3(vec![1, 3, 4, 16, 32], vec![1, 2, 3, 4, 8, 9, 12, 16, 30, 32, 64, 100, 128, 256], (1..=36).chain([48, 60, 64, 81, 100, 128, 192, 256, 500, 512, 1024]).collect());
    for a in pool.clone() {
        for b in pool.clone() {
            units.push(Box::new(move |cx| {
                reused::<f32>(cx, a, b);
                reused::<f64>(cx, a, b);
            }));
        }
    }
    for n in (0..=n3).chain([128, 256, 512]) {
        units.push(Box::new(move |cx| {
            rest(cx, n);
            fenced_forms(cx, "rest", n, LINEAR);
            fenced_forms(cx, "rest", n, SQUARE);
        }));
    }
    for n in eng.pick3(vec![], vec![600usize, 1025, 5000, 8192, 20_000], vec![600, 777, 1000, 1023, 1025, 2047, 4097, 5000, 8192, 20_000, 65_536, 65_537, 100_000]) {
        units.push(Box::new(move |cx| fenced_forms(cx, "long", n, LINEAR)));
    }
    eng.run_units(units);
}

fn main() {
    if std::env::var_os("KMC_AS_GB").is_none() {
        std::env::set_var("KMC_AS_GB", kmc_core::memory::LIMIT_GB.to_string());
    }
    kmc_engine::main_with(&[DEF]);
}

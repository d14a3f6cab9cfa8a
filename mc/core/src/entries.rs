//! Every complex-transform entry point, as a table.
use crate::common::*;

pub type R<T> = Result<Vec<Complex<T>>, FftError>;
pub type Entry<T> = (&'static str, fn(&[Complex<T>]) -> R<T>);

pub fn split_of<T: Num>(x: &[Complex<T>]) -> (Vec<T>, Vec<T>) {
    (x.iter().map(|c| c.re).collect(), x.iter().map(|c| c.im).collect())
}
pub fn join<T: Num>(re: &[T], im: &[T]) -> Vec<Complex<T>> {
    re.iter().zip(im).map(|(r, i)| Complex::new(*r, *i)).collect()
}
/// Delegates the required methods to the scalar engine and inherits every provided one.
pub struct Minimal<T: Float>(ScalarFftImpl<T>);
impl<T: Float> Default for Minimal<T> {
    fn default() -> Self {
        Minimal(ScalarFftImpl::default())
    }
}
impl<T: Float> FftImpl<T> for Minimal<T> {
    fn fft(&self, i: &mut [Complex<T>]) -> Result<(), FftError> {
        self.0.fft(i)
    }
    fn ifft(&self, i: &mut [Complex<T>]) -> Result<(), FftError> {
        self.0.ifft(i)
    }
    fn fft_strided(&self, i: &mut [Complex<T>], s: usize, b: &mut [Complex<T>]) -> Result<(), FftError> {
        self.0.fft_strided(i, s, b)
    }
    fn ifft_strided(&self, i: &mut [Complex<T>], s: usize, b: &mut [Complex<T>]) -> Result<(), FftError> {
        self.0.ifft_strided(i, s, b)
    }
    fn fft_out_of_place_strided(&self, i: &[Complex<T>], a: usize, o: &mut [Complex<T>], b: usize) -> Result<(), FftError> {
        self.0.fft_out_of_place_strided(i, a, o, b)
    }
    fn ifft_out_of_place_strided(&self, i: &[Complex<T>], a: usize, o: &mut [Complex<T>], b: usize) -> Result<(), FftError> {
        self.0.ifft_out_of_place_strided(i, a, o, b)
    }
    fn fft_with_strategy(&self, i: &mut [Complex<T>], s: FftStrategy) -> Result<(), FftError> {
        self.0.fft_with_strategy(i, s)
    }
}

fn strat<T: Num>(x: &[Complex<T>], s: FftStrategy) -> R<T> {
    let mut v = x.to_vec();
    ScalarFftImpl::<T>::default().fft_with_strategy(&mut v, s)?;
    Ok(v)
}
#[cfg(feature = "std")]
fn plan<T: Num>(x: &[Complex<T>], s: FftStrategy) -> R<T> {
    let mut v = x.to_vec();
    FftPlan::<T>::new(x.len(), s).fft(&mut v)?;
    Ok(v)
}
pub fn entries<T: Num>() -> Vec<Entry<T>> {
    vec![
        ("fft", |x| {
            let mut v = x.to_vec();
            ScalarFftImpl::<T>::default().fft(&mut v)?;
            Ok(v)
        }),
        ("stockham", |x| {
            let mut v = x.to_vec();
            ScalarFftImpl::<T>::default().stockham_fft(&mut v)?;
            Ok(v)
        }),
        #[cfg(feature = "std")]
        ("radix4", |x| {
            let mut v = x.to_vec();
            ScalarFftImpl::<T>::default().fft_radix4(&mut v)?;
            Ok(v)
        }),
        #[cfg(feature = "std")]
        ("vec", |x| ScalarFftImpl::<T>::default().fft_vec(x)),
        ("strategy-radix2", |x| strat(x, FftStrategy::Radix2)),
        ("strategy-radix4", |x| strat(x, FftStrategy::Radix4)),
        ("strategy-split", |x| strat(x, FftStrategy::SplitRadix)),
        ("strategy-auto", |x| strat(x, FftStrategy::Auto)),
        #[cfg(feature = "std")]
        ("plan-radix2", |x| plan(x, FftStrategy::Radix2)),
        #[cfg(feature = "std")]
        ("plan-radix4", |x| plan(x, FftStrategy::Radix4)),
        #[cfg(feature = "std")]
        ("plan-split", |x| plan(x, FftStrategy::SplitRadix)),
        #[cfg(feature = "std")]
        ("plan-auto", |x| plan(x, FftStrategy::Auto)),
        #[cfg(feature = "std")]
        ("plan-oop", |x| {
            let mut v = vec![Complex::zero(); x.len()];
            FftPlan::<T>::new(x.len(), FftStrategy::Auto).fft_out_of_place(x, &mut v)?;
            Ok(v)
        }),
        #[cfg(feature = "std")]
        ("plan-splitarrays", |x| {
            let (mut a, mut b) = split_of(x);
            FftPlan::<T>::new(x.len(), FftStrategy::Auto).fft_split(&mut a, &mut b)?;
            Ok(join(&a, &b))
        }),
        ("parallel", |x| {
            let mut v = x.to_vec();
            fft_parallel(&mut v)?;
            Ok(v)
        }),
        ("oop", |x| {
            let mut v = vec![Complex::zero(); x.len()];
            ScalarFftImpl::<T>::default().fft_out_of_place(x, &mut v)?;
            Ok(v)
        }),
        ("splitarrays", |x| {
            let (mut a, mut b) = split_of(x);
            ScalarFftImpl::<T>::default().fft_split(&mut a, &mut b)?;
            Ok(join(&a, &b))
        }),
        ("splitarrays-default", |x| {
            let (mut a, mut b) = split_of(x);
            Minimal::<T>::default().fft_split(&mut a, &mut b)?;
            Ok(join(&a, &b))
        }),
        ("splitarrays-fn", |x| {
            let (mut a, mut b) = split_of(x);
            fft_split(&mut a, &mut b)?;
            Ok(join(&a, &b))
        }),
        ("splitarrays-view", |x| {
            let (mut a, mut b) = split_of(x);
            fft_split_complex(SplitComplex { re: &mut a, im: &mut b })?;
            Ok(join(&a, &b))
        }),
        ("batch", |x| {
            let mut b = vec![x.to_vec(), x.to_vec()];
            batch(&ScalarFftImpl::<T>::default(), &mut b)?;
            if !bits_eq(&b[0], &b[1]) {
                return Err(FftError::InvalidValue);
            }
            Ok(b.remove(1))
        }),
        ("channels", |x| {
            let mut b = vec![x.to_vec(), x.to_vec(), x.to_vec()];
            multi_channel(&ScalarFftImpl::<T>::default(), &mut b)?;
            if !bits_eq(&b[0], &b[2]) {
                return Err(FftError::InvalidValue);
            }
            Ok(b.remove(1))
        }),
    ]
}
pub fn entries32() -> Vec<Entry<f32>> {
    vec![
        ("best", |x| {
            let mut v = x.to_vec();
            new_fft_impl().fft(&mut v)?;
            Ok(v)
        }),
        ("best-auto", |x| {
            let mut v = x.to_vec();
            new_fft_impl().fft_with_strategy(&mut v, FftStrategy::Auto)?;
            Ok(v)
        }),
        ("best-radix4", |x| {
            let mut v = x.to_vec();
            new_fft_impl().fft_with_strategy(&mut v, FftStrategy::Radix4)?;
            Ok(v)
        }),
        ("best-split", |x| {
            let (mut a, mut b) = split_of(x);
            new_fft_impl().fft_split(&mut a, &mut b)?;
            Ok(join(&a, &b))
        }),
        #[cfg(target_arch = "x86_64")]
        ("x86", |x| {
            let mut v = x.to_vec();
            SimdFftX86_64Impl.fft(&mut v)?;
            Ok(v)
        }),
        ("mixed", |x| {
            let mut v = x.to_vec();
            ScalarFftImpl::<f32>::default().fft_mixed_radix(&mut v)?;
            Ok(v)
        }),
        #[cfg(feature = "std")]
        ("mixed-table", |x| {
            let mut v = x.to_vec();
            let t = TwiddleFactorBuffer::new(x.len());
            ScalarFftImpl::<f32>::default().fft_mixed_radix_with_twiddles(&mut v, &t)?;
            Ok(v)
        }),
        #[cfg(feature = "std")]
        ("radix2-table", |x| {
            let mut v = x.to_vec();
            let t = TwiddleFactorBuffer::new(x.len());
            ScalarFftImpl::<f32>::default().fft_radix2_with_twiddles(&mut v, &t)?;
            Ok(v)
        }),
        #[cfg(feature = "std")]
        ("radix4-table", |x| {
            let mut v = x.to_vec();
            let t = TwiddleFactorBuffer::new(x.len());
            ScalarFftImpl::<f32>::default().fft_radix4_with_twiddles(&mut v, &t)?;
            Ok(v)
        }),
        #[cfg(feature = "soa")]
        ("complexvec", |x| {
            let (a, b) = split_of(x);
            let mut d = kofft::num::ComplexVec { re: a, im: b };
            fft_complex_vec(&mut d)?;
            Ok(join(&d.re, &d.im))
        }),
        #[cfg(all(feature = "std", feature = "soa"))]
        ("plan-complexvec", |x| {
            let (a, b) = split_of(x);
            let mut d = kofft::num::ComplexVec { re: a, im: b };
            FftPlan::<f32>::new(x.len(), FftStrategy::Auto).fft_complex_vec(&mut d)?;
            Ok(join(&d.re, &d.im))
        }),
    ]
}

/// Families of dense inputs: (name, input, transform).
pub fn extra_lengths(from: usize, max: usize) -> Vec<usize> {
    let mut v = std::collections::BTreeSet::new();
    let mut p2 = 1;
    while p2 <= max {
        for d in [-3i64, -1, 0, 1, 3] {
            v.insert((p2 as i64 + d).max(1) as usize);
        }
        v.insert(p2 + p2 / 2);
        v.insert(p2 + p2 / 4);
        p2 *= 2;
    }
    for p in [769, 1009, 1536, 1920, 2003, 2187, 2310, 3125, 4099, 4410, 5000, 6000, 7919, 8000, 9973, 10000, 11025, 12289, 16000, 20011, 22050, 30030, 44100, 48000, 65537, 96000, 100003, 131071, 196613] {
        v.insert(p);
    }
    v.into_iter().filter(|n| *n > from && *n <= max).collect()
}
/// Lengths around and beyond 2^16, where narrow counters and indices end.
pub fn long_lengths(eng: &kmc_engine::Eng) -> Vec<usize> {
    let mut v = vec![65_537, 65_538, 131_072];
    if !eng.small() {
        v.extend([65_536, 70_000, 87_382, 98_304, 98_305, 131_071, 131_074, 196_608, 200_003, 262_144, 262_146]);
    }
    if !eng.quick() {
        v.extend([65_535, 65_539, 81_920, 87_381, 100_003, 131_070, 131_073, 160_000, 262_143, 300_000, 393_216, 400_009, 524_287, 524_288, 524_289, 524_290, 700_000, 786_432, 1_000_003, 1_048_575, 1_048_576, 1_048_578, 1_500_000, 2_097_152, 2_097_154, 4_194_304, 4_194_305]);
    }
    v.sort();
    v
}
/// `new_fft_impl` hands out a boxed trait object; the short-time transforms need a sized engine.
pub struct Boxed(pub Box<dyn FftImpl<f32>>);
impl FftImpl<f32> for Boxed {
    fn fft(&self, i: &mut [Complex<f32>]) -> Result<(), FftError> {
        self.0.fft(i)
    }
    fn ifft(&self, i: &mut [Complex<f32>]) -> Result<(), FftError> {
        self.0.ifft(i)
    }
    fn fft_strided(&self, i: &mut [Complex<f32>], s: usize, b: &mut [Complex<f32>]) -> Result<(), FftError> {
        self.0.fft_strided(i, s, b)
    }
    fn ifft_strided(&self, i: &mut [Complex<f32>], s: usize, b: &mut [Complex<f32>]) -> Result<(), FftError> {
        self.0.ifft_strided(i, s, b)
    }
    fn fft_out_of_place_strided(&self, i: &[Complex<f32>], a: usize, o: &mut [Complex<f32>], b: usize) -> Result<(), FftError> {
        self.0.fft_out_of_place_strided(i, a, o, b)
    }
    fn ifft_out_of_place_strided(&self, i: &[Complex<f32>], a: usize, o: &mut [Complex<f32>], b: usize) -> Result<(), FftError> {
        self.0.ifft_out_of_place_strided(i, a, o, b)
    }
    fn fft_with_strategy(&self, i: &mut [Complex<f32>], s: FftStrategy) -> Result<(), FftError> {
        self.0.fft_with_strategy(i, s)
    }
}

#[cfg(feature = "std")]
fn iplan<T: Num>(x: &[Complex<T>], s: FftStrategy) -> Result<Vec<Complex<T>>, FftError> {
    let mut v = x.to_vec();
    FftPlan::<T>::new(x.len(), s).ifft(&mut v)?;
    Ok(v)
}
pub fn inverses<T: Num>() -> Vec<Entry<T>> {
    vec![
        ("ifft", |x| {
            let mut v = x.to_vec();
            ScalarFftImpl::<T>::default().ifft(&mut v)?;
            Ok(v)
        }),
        #[cfg(feature = "std")]
        ("vec", |x| ScalarFftImpl::<T>::default().ifft_vec(x)),
        #[cfg(feature = "std")]
        ("plan-radix2", |x| iplan(x, FftStrategy::Radix2)),
        #[cfg(feature = "std")]
        ("plan-radix4", |x| iplan(x, FftStrategy::Radix4)),
        #[cfg(feature = "std")]
        ("plan-split", |x| iplan(x, FftStrategy::SplitRadix)),
        #[cfg(feature = "std")]
        ("plan-auto", |x| iplan(x, FftStrategy::Auto)),
        #[cfg(feature = "std")]
        ("plan-oop", |x| {
            let mut v = vec![Complex::zero(); x.len()];
            FftPlan::<T>::new(x.len(), FftStrategy::Auto).ifft_out_of_place(x, &mut v)?;
            Ok(v)
        }),
        #[cfg(feature = "std")]
        ("plan-splitarrays", |x| {
            let (mut a, mut b) = split_of(x);
            FftPlan::<T>::new(x.len(), FftStrategy::Auto).ifft_split(&mut a, &mut b)?;
            Ok(join(&a, &b))
        }),
        ("parallel", |x| {
            let mut v = x.to_vec();
            ifft_parallel(&mut v)?;
            Ok(v)
        }),
        ("oop", |x| {
            let mut v = vec![Complex::zero(); x.len()];
            ScalarFftImpl::<T>::default().ifft_out_of_place(x, &mut v)?;
            Ok(v)
        }),
        ("splitarrays", |x| {
            let (mut a, mut b) = split_of(x);
            ScalarFftImpl::<T>::default().ifft_split(&mut a, &mut b)?;
            Ok(join(&a, &b))
        }),
        ("splitarrays-default", |x| {
            let (mut a, mut b) = split_of(x);
            Minimal::<T>::default().ifft_split(&mut a, &mut b)?;
            Ok(join(&a, &b))
        }),
        ("splitarrays-fn", |x| {
            let (mut a, mut b) = split_of(x);
            ifft_split(&mut a, &mut b)?;
            Ok(join(&a, &b))
        }),
        ("splitarrays-view", |x| {
            let (mut a, mut b) = split_of(x);
            ifft_split_complex(SplitComplex { re: &mut a, im: &mut b })?;
            Ok(join(&a, &b))
        }),
        ("batch", |x| {
            let mut b = vec![x.to_vec(), x.to_vec()];
            batch_inverse(&ScalarFftImpl::<T>::default(), &mut b)?;
            if !bits_eq(&b[0], &b[1]) {
                return Err(FftError::InvalidValue);
            }
            Ok(b.remove(1))
        }),
        ("channels", |x| {
            let mut b = vec![x.to_vec(), x.to_vec(), x.to_vec()];
            multi_channel_inverse(&ScalarFftImpl::<T>::default(), &mut b)?;
            if !bits_eq(&b[0], &b[2]) {
                return Err(FftError::InvalidValue);
            }
            Ok(b.remove(1))
        }),
        ("strided1", |x| {
            let mut v = x.to_vec();
            let mut s = x.to_vec();
            ScalarFftImpl::<T>::default().ifft_strided(&mut v, 1, &mut s)?;
            Ok(v)
        }),
        ("strided-alloc", |x| {
            let mut v = x.to_vec();
            ScalarFftImpl::<T>::default().ifft_strided_alloc(&mut v, 1)?;
            Ok(v)
        }),
        ("oop-strided", |x| {
            let mut v = x.to_vec();
            ScalarFftImpl::<T>::default().ifft_out_of_place_strided(x, 1, &mut v, 1)?;
            Ok(v)
        }),
    ]
}
pub fn inverses32() -> Vec<Entry<f32>> {
    vec![
        ("best", |x| {
            let mut v = x.to_vec();
            new_fft_impl().ifft(&mut v)?;
            Ok(v)
        }),
        ("best-split", |x| {
            let (mut a, mut b) = split_of(x);
            new_fft_impl().ifft_split(&mut a, &mut b)?;
            Ok(join(&a, &b))
        }),
        ("best-oop", |x| {
            let mut v = x.to_vec();
            new_fft_impl().ifft_out_of_place(x, &mut v)?;
            Ok(v)
        }),
        #[cfg(target_arch = "x86_64")]
        ("x86", |x| {
            let mut v = x.to_vec();
            SimdFftX86_64Impl.ifft(&mut v)?;
            Ok(v)
        }),
        #[cfg(feature = "soa")]
        ("complexvec", |x| {
            let (a, b) = split_of(x);
            let mut d = kofft::num::ComplexVec { re: a, im: b };
            ifft_complex_vec(&mut d)?;
            Ok(join(&d.re, &d.im))
        }),
        #[cfg(all(feature = "std", feature = "soa"))]
        ("plan-complexvec", |x| {
            let (a, b) = split_of(x);
            let mut d = kofft::num::ComplexVec { re: a, im: b };
            FftPlan::<f32>::new(x.len(), FftStrategy::Auto).ifft_complex_vec(&mut d)?;
            Ok(join(&d.re, &d.im))
        }),
    ]
}

PRE = '''use kofft::fft::*;
use kofft::*;
type C = Complex32;
fn probe(n: usize) -> Vec<C> { (0..n).map(|i| C::new(((i * 7 + 3) % 11) as f32 - 5.0, ((i * 5 + 1) % 13) as f32 - 6.0)).collect() }
fn dft(x: &[C]) -> Vec<C> { let n = x.len(); (0..n).map(|k| { let (mut a, mut b) = (0f64, 0f64); for (i, v) in x.iter().enumerate() { let t = -2.0 * std::f64::consts::PI * ((i * k) % n) as f64 / n as f64; a += v.re as f64 * t.cos() - v.im as f64 * t.sin(); b += v.re as f64 * t.sin() + v.im as f64 * t.cos(); } C::new(a as f32, b as f32) }).collect() }
fn near(a: &[C], b: &[C]) { assert_eq!(a.len(), b.len()); for (x, y) in a.iter().zip(b) { assert!((x.re - y.re).abs() < 0.05 && (x.im - y.im).abs() < 0.05, "{:?} {:?}", x, y); } }
'''
bug("b01-oop-scratch", "C02", "an out-of-place strided transform after a larger one on the same engine",
    "the scratch buffer keeps the larger length and the whole of it is transformed",
    [("src/fft.rs", "self.fft(&mut scratch[..n])?;\n        for i in 0..n {\n            output[i * out_stride] = scratch[i];", "self.fft(&mut scratch)?;\n        for i in 0..n {\n            output[i * out_stride] = scratch[i];")],
    PRE + '''fn main() { let f = ScalarFftImpl::<f32>::default(); for n in [24usize, 6, 9] { let x = probe(n); let mut y = vec![C::zero(); n]; f.fft_out_of_place_strided(&x, 1, &mut y, 1).unwrap(); near(&y, &dft(&x)); } }''')
bug("b02-stream-skip", "C09", "the engine fails in the middle of a stream and the caller carries on",
    "StftStream advances before the transform, so a failed call loses a frame",
    [("src/stft.rs", "        self.fft.fft(out)?;\n        self.pos += self.hop_size;\n        Ok(true)", "        self.pos += self.hop_size;\n        self.fft.fft(out)?;\n        Ok(true)")],
    PRE + '''use std::cell::Cell;
struct F(ScalarFftImpl<f32>, Cell<usize>);
impl FftImpl<f32> for F {
 fn fft(&self, x: &mut [C]) -> Result<(), FftError> { self.1.set(self.1.get() + 1); if self.1.get() == 2 { return Err(FftError::InvalidValue) } self.0.fft(x) }
 fn ifft(&self, x: &mut [C]) -> Result<(), FftError> { self.0.ifft(x) }
 fn fft_strided(&self, a: &mut [C], b: usize, c: &mut [C]) -> Result<(), FftError> { self.0.fft_strided(a, b, c) }
 fn ifft_strided(&self, a: &mut [C], b: usize, c: &mut [C]) -> Result<(), FftError> { self.0.ifft_strided(a, b, c) }
 fn fft_out_of_place_strided(&self, a: &[C], b: usize, c: &mut [C], d: usize) -> Result<(), FftError> { self.0.fft_out_of_place_strided(a, b, c, d) }
 fn ifft_out_of_place_strided(&self, a: &[C], b: usize, c: &mut [C], d: usize) -> Result<(), FftError> { self.0.ifft_out_of_place_strided(a, b, c, d) }
 fn fft_with_strategy(&self, a: &mut [C], s: FftStrategy) -> Result<(), FftError> { self.0.fft_with_strategy(a, s) }
}
fn main() { let e = F(ScalarFftImpl::default(), Cell::new(0)); let s: Vec<f32> = (1..9).map(|i| i as f32).collect(); let w = vec![1.0; 4];
 let mut st = kofft::stft::StftStream::new(&s, &w, 2, &e).unwrap(); let mut b = vec![C::zero(); 4];
 assert!(st.next_frame(&mut b).unwrap()); assert!(st.next_frame(&mut b).is_err()); assert!(st.next_frame(&mut b).unwrap()); assert!((b[0].re - 18.0).abs() < 1e-3); }''')
bug("b03-par-chunks", "C10", "a parallel inverse transform whose length is not a multiple of 256",
    "the parallel inverse conjugates whole chunks only and drops the rest",
    [("src/fft.rs", "                input32.par_iter_mut().for_each(|c| c.im = -c.im);\n", "                input32\n                    .par_chunks_exact_mut(256)\n                    .for_each(|chunk| chunk.iter_mut().for_each(|c| c.im = -c.im));\n")],
    PRE + '''fn main() { set_parallel_fft_threshold(1); set_parallel_fft_per_core_work(1); set_parallel_fft_threads(2); for n in [256usize, 300] { let x = probe(n); let mut y = dft(&x); ScalarFftImpl::<f32>::default().ifft(&mut y).unwrap(); near(&y, &x); } }''',
    features="parallel")
bug("b04-tail-frame", "C08", "a frame that reaches past the end of the output",
    "istft leaves out the frames that do not fit in the output entirely",
    [("src/stft.rs", "            if start + i < output.len() {\n                output[start + i] += frame[i].re * window[i];\n                scratch[start + i] += window[i] * window[i];", "            if start + win_len <= output.len() {\n                output[start + i] += frame[i].re * window[i];\n                scratch[start + i] += window[i] * window[i];")],
    PRE + '''fn main() { let s: Vec<f32> = (1..8).map(|i| i as f32).collect(); let w = vec![1.0f32, 0.7, 0.9, 0.4]; let f = ScalarFftImpl::<f32>::default(); let mut fr = vec![vec![]; 4]; kofft::stft::stft(&s, &w, 2, &mut fr, &f).unwrap(); let mut o = vec![0.0; 7]; let mut sc = vec![0.0; 7]; kofft::stft::istft(&mut fr, &w, 2, &mut o, &mut sc, &f).unwrap(); for (a, b) in o.iter().zip(&s) { assert!((a - b).abs() < 1e-3, "{:?}", o); } }''')
bug("b05-radix4-pair", "C01", "a power of four above 64 with the radix-4 strategy",
    "the paired loop of the radix-4 butterfly reads the twiddle of its neighbour",
    [("src/fft.rs", "let b1 = input[i + j1 + quarter].mul(w1);", "let b1 = input[i + j1 + quarter].mul(if len > 64 { twiddles[j] } else { w1 });")],
    PRE + '''fn main() { for n in [16usize, 64, 256] { let x = probe(n); let mut y = x.clone(); ScalarFftImpl::<f32>::default().fft_radix4(&mut y).unwrap(); let d = dft(&x); let m = d.iter().map(|c| c.re.abs() + c.im.abs()).fold(0f32, f32::max); for (a, b) in y.iter().zip(&d) { assert!((a.re - b.re).abs() + (a.im - b.im).abs() < 1e-4 * m, "{n}"); } } }''')
bug("b06-split-inverse", "C03", "an inverse split transform in f64 with a non power of two length",
    "the split inverse scales by the next power of two",
    [("src/fft.rs", "let scale = 1.0 / re64.len() as f64;", "let scale = 1.0 / re64.len().next_power_of_two() as f64;")],
    '''use kofft::fft::*; fn main() { for n in [8usize, 12] { let re: Vec<f64> = (0..n).map(|i| i as f64).collect(); let (mut a, mut b) = (re.clone(), vec![0.0; n]); let f = ScalarFftImpl::<f64>::default(); f.fft_split(&mut a, &mut b).unwrap(); f.ifft_split(&mut a, &mut b).unwrap(); for (x, y) in a.iter().zip(&re) { assert!((x - y).abs() < 1e-9, "{n}"); } } }''')

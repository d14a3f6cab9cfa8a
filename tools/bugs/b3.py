exec(open("/verif/tools/bugs/pre.py").read())
bug("b24-unit-stride", "C04", "an inverse strided transform with stride one over a part of a longer buffer", "the fast path for stride one transforms the whole buffer instead of as much as the scratch buffer holds",
    [("src/fft.rs", "        for i in 0..n {\n            scratch[i] = input[i * stride];\n        }\n        self.ifft(&mut scratch[..n])?;", "        if stride == 1 {\n            // Already contiguous: nothing to gather.\n            return self.ifft(input);\n        }\n        for i in 0..n {\n            scratch[i] = input[i * stride];\n        }\n        self.ifft(&mut scratch[..n])?;")],
    PRE + '''fn main() { let f = ScalarFftImpl::<f32>::default(); let mut x = dft(&probe(8)); x.extend(probe(3)); let mut s = vec![C::zero(); 8]; f.ifft_strided(&mut x, 1, &mut s).unwrap(); near(&x[..8], &probe(8)); near(&x[8..], &probe(3)); }''')
bug("b25-equal-strides", "C04", "an out-of-place strided inverse transform whose two strides are equal and above one", "equal strides are served by copying everything and transforming in place, so the gaps of the output are overwritten",
    [("src/fft.rs", "    fn ifft_out_of_place_strided(\n        &self,\n        input: &[Complex<T>],\n        in_stride: usize,\n        output: &mut [Complex<T>],\n        out_stride: usize,\n    ) -> Result<(), FftError> {\n        if in_stride == 0 || out_stride == 0 {\n            return Err(FftError::InvalidStride);\n        }\n        if !input.len().is_multiple_of(in_stride) || !output.len().is_multiple_of(out_stride) {\n            return Err(FftError::InvalidStride);\n        }\n        let n = input.len() / in_stride;\n        if output.len() / out_stride != n {\n            return Err(FftError::MismatchedLengths);\n        }\n",
      "    fn ifft_out_of_place_strided(\n        &self,\n        input: &[Complex<T>],\n        in_stride: usize,\n        output: &mut [Complex<T>],\n        out_stride: usize,\n    ) -> Result<(), FftError> {\n        if in_stride == 0 || out_stride == 0 {\n            return Err(FftError::InvalidStride);\n        }\n        if !input.len().is_multiple_of(in_stride) || !output.len().is_multiple_of(out_stride) {\n            return Err(FftError::InvalidStride);\n        }\n        let n = input.len() / in_stride;\n        if output.len() / out_stride != n {\n            return Err(FftError::MismatchedLengths);\n        }\n        if in_stride == out_stride && n > 0 {\n            output.copy_from_slice(input);\n            return self.ifft_strided_alloc(output, out_stride);\n        }\n")],
    PRE + '''fn main() { let f = ScalarFftImpl::<f32>::default(); let x = probe(12); let mark = C::new(77.0, -77.0); let mut y = vec![mark; 12]; f.ifft_out_of_place_strided(&x, 2, &mut y, 2).unwrap(); for i in 0..6 { assert_eq!(y[2 * i + 1], mark); } }''')
bug("b26-spectrum-longer", "C05", "an inverse packed real transform of a spectrum that is too long", "irfft_packed accepts a spectrum with more bins than the output has room for",
    [("src/rfft.rs", "pub fn irfft_packed<T: RealFftNum, F: FftImpl<T>>(\n    planner: &mut RfftPlanner<T>,\n    fft: &F,\n    input: &mut [Complex<T>],\n    output: &mut [T],\n    scratch: &mut [Complex<T>],\n) -> Result<(), FftError> {\n    let n = output.len();\n    if n == 0 {\n        return Err(FftError::EmptyInput);\n    }\n    if !n.is_multiple_of(2) {\n        return Err(FftError::InvalidValue);\n    }\n    let m = n / 2;\n    if input.len() != m + 1", "pub fn irfft_packed<T: RealFftNum, F: FftImpl<T>>(\n    planner: &mut RfftPlanner<T>,\n    fft: &F,\n    input: &mut [Complex<T>],\n    output: &mut [T],\n    scratch: &mut [Complex<T>],\n) -> Result<(), FftError> {\n    let n = output.len();\n    if n == 0 {\n        return Err(FftError::EmptyInput);\n    }\n    if !n.is_multiple_of(2) {\n        return Err(FftError::InvalidValue);\n    }\n    let m = n / 2;\n    if input.len() <= m")],
    PRE + '''use kofft::rfft::*; fn main() { let f = ScalarFftImpl::<f32>::default(); let mut p = RfftPlanner::new(); let mut s = vec![C::zero(); 4]; let mut o = vec![0f32; 8]; assert!(irfft_packed(&mut p, &f, &mut probe(5), &mut o, &mut s).is_ok()); assert!(irfft_packed(&mut p, &f, &mut probe(4), &mut o, &mut s).is_err()); assert!(irfft_packed(&mut p, &f, &mut probe(6), &mut o, &mut s).is_err()); }''')
bug("b28-rfft-middle", "C06", "a real transform in f64 whose length is a multiple of four above 256", "the paired loop of the real transform leaves out the bin in the middle",
    [("src/rfft.rs", "    // Copy FFT results so we can perform the symmetric post-processing\n    scratch[..m].copy_from_slice(&output[..m]);\n    let y0 = scratch[0];\n    output[0] = Complex::new(y0.re + y0.im, T::zero());\n    output[m] = Complex::new(y0.re - y0.im, T::zero());\n    let half = T::from_f32(0.5);\n    for k in 1..m {\n        let a = scratch[k];", "    // Copy FFT results so we can perform the symmetric post-processing\n    scratch[..m].copy_from_slice(&output[..m]);\n    let y0 = scratch[0];\n    output[0] = Complex::new(y0.re + y0.im, T::zero());\n    output[m] = Complex::new(y0.re - y0.im, T::zero());\n    let half = T::from_f32(0.5);\n    for k in 1..m {\n        if m > 128 && 2 * k == m {\n            // The middle bin is its own mirror image.\n            continue;\n        }\n        let a = scratch[k];")],
    '''use kofft::fft::*; use kofft::rfft::*; fn main() { let f = ScalarFftImpl::<f64>::default(); for n in [64usize, 258, 260] { let mut x = vec![0f64; n]; x[1] = 1.0; let mut o = vec![Complex64::zero(); n / 2 + 1]; f.rfft(&mut x, &mut o).unwrap(); for k in 0..=n / 2 { let t = 2.0 * std::f64::consts::PI * k as f64 / n as f64; assert!((o[k].re - t.cos()).abs() + (o[k].im + t.sin()).abs() < 1e-9, "{n} {k}"); } } }''')
bug("b29-reused-frames", "C07", "parallel STFT into frames that hold the frames of an earlier call", "frames that are not empty are appended to",
    [("src/stft.rs", "            frame.clear();\n            for i in 0..win_len {", "            frame.reserve_exact(win_len);\n            if frame.len() != win_len {\n                frame.clear();\n            }\n            for i in 0..win_len {")],
    PRE + '''fn main() { let f = ScalarFftImpl::<f32>::default(); let s = [1f32, 2.0, 3.0, 4.0]; let w = [1f32; 2]; let mut fr = vec![vec![]; 2]; for _ in 0..2 { kofft::stft::parallel(&s, &w, 2, &mut fr, &f).unwrap(); assert!(fr.iter().all(|x| x.len() == 2)); assert!((fr[1][0].re - 7.0).abs() < 1e-4); } }''', features="parallel")
bug("b30-spare-frames", "C07", "an STFT into more frames than the signal needs", "frames past the end of the signal keep what they held",
    [("src/stft.rs", "    for (frame_idx, frame) in output.iter_mut().enumerate() {\n        let start = frame_idx.saturating_mul(hop_size);\n        frame.resize(win_len, Complex32::new(0.0, 0.0));", "    for (frame_idx, frame) in output.iter_mut().enumerate() {\n        let start = frame_idx.saturating_mul(hop_size);\n        frame.resize(win_len, Complex32::new(0.0, 0.0));\n        if frame_idx > required {\n            continue;\n        }")],
    PRE + '''fn main() { let f = ScalarFftImpl::<f32>::default(); let s = [1f32, 2.0, 3.0, 4.0]; let w = [1f32; 2]; let mut fr = vec![probe(2); 5]; kofft::stft::stft(&s, &w, 2, &mut fr, &f).unwrap(); for x in &fr[2..] { near(x, &[C::zero(); 2]); } }''')
bug("b31-threshold", "C08", "a window so small at a sample that its square lies between 1e-8 and 1e-6", "istft divides only where the squared window exceeds 1e-6",
    [("src/stft.rs", "    for i in 0..output.len() {\n        if scratch[i] > 1e-8 {\n            output[i] /= scratch[i];", "    for i in 0..output.len() {\n        if scratch[i] > 1e-6 {\n            output[i] /= scratch[i];")],
    PRE + '''fn main() { let f = ScalarFftImpl::<f32>::default(); let s = [1f32, 2.0, 3.0, 4.0]; let w = [1f32, 5e-4]; let mut fr = vec![vec![]; 2]; kofft::stft::stft(&s, &w, 2, &mut fr, &f).unwrap(); let mut o = [0f32; 4]; let mut n = [0f32; 4]; kofft::stft::istft(&mut fr, &w, 2, &mut o, &mut n, &f).unwrap(); for i in 0..4 { assert!((o[i] - s[i]).abs() < 1e-2, "{o:?}"); } }''')
bug("b32-inverse-dirty", "C08", "parallel synthesis into a buffer that is not zero and longer than the frames reach", "inverse_parallel keeps what the output held where no frame reaches",
    [("src/stft.rs", "        if norm[i] > 1e-8 {\n            output[i] /= norm[i];\n        } else {\n            output[i] = 0.0;\n        }", "        if norm[i] > 1e-8 {\n            output[i] /= norm[i];\n        }"),
     ("src/stft.rs", "    norm.resize(output.len(), 0.0);\n    for x in output.iter_mut() {\n        *x = 0.0;\n    }", "    norm.resize(output.len(), 0.0);\n    let reach = partials.last().map_or(0, |(start, acc, _)| start + acc.len());\n    for x in output.iter_mut().take(reach) {\n        *x = 0.0;\n    }")],
    PRE + '''fn main() { let f = ScalarFftImpl::<f32>::default(); let w = vec![1f32; 4]; let mut o = vec![9f32; 8]; kofft::stft::inverse_parallel(&[dft(&probe(4))], &w, 2, &mut o, &f).unwrap(); assert!(o[6].abs() < 1e-3); assert!((o[0] - probe(4)[0].re).abs() < 1e-2); }''', features="parallel")
bug("b33-failed-first", "C09", "a first frame that the engine refuses, then a flush", "IstftStream counts a frame before it is transformed",
    [("src/stft.rs", "        self.time_buf.copy_from_slice(frame);\n        self.fft.ifft(&mut self.time_buf)?;\n", "        self.time_buf.copy_from_slice(frame);\n        self.frame_count += 1;\n        self.fft.ifft(&mut self.time_buf)?;\n"), ("src/stft.rs", "        self.frame_count += 1;\n        // Output is available after the first frame\n", "        // Output is available after the first frame\n")],
    PRE + ENGINE + '''fn main() { let e = F(ScalarFftImpl::default(), Cell::new(0), 1); let mut st = kofft::stft::IstftStream::new(4, 2, vec![1.0; 4], &e).unwrap(); assert!(st.push_frame(&probe(4)).is_err()); assert!(st.flush().is_empty()); assert_eq!(st.push_frame(&probe(4)).unwrap().len(), 2); assert_eq!(st.flush().len(), 2); }''')
bug("b34-no-threads", "C10", "a thread override that exceeds the length", "the parallel inverse transform scales by the number of points each thread gets",
    [("src/fft.rs", "                self.fft(input)?;\n                let scale = 1.0 / n as f32;\n                input32.par_iter_mut().for_each(|c| {", "                self.fft(input)?;\n                let share = n.div_ceil(parallel_fft_threads().max(1)).max(2);\n                let scale = if share > 2 { 1.0 / n as f32 } else { 0.5 / n.div_ceil(2) as f32 };\n                input32.par_iter_mut().for_each(|c| {")],
    PRE + '''fn main() { set_parallel_fft_threshold(1); set_parallel_fft_per_core_work(1); set_parallel_fft_l1_cache(8); set_parallel_fft_block_size(1); set_parallel_fft_threads(40); std::env::set_var("KOFFT_PAR_FFT_PER_CORE_WORK", "1"); let _ = calibrated(); for n in [64usize, 65] { let x = probe(n); let mut y = dft(&x); ScalarFftImpl::<f32>::default().ifft(&mut y).unwrap(); near(&y, &x); } } fn calibrated() {}''', features="parallel")
bug("b35-fma-product", "C18", "a build for processors with fused multiply-add", "the fused complex product adds the wrong cross term",
    [("src/num.rs", "    #[cfg(all(\n        target_feature = \"fma\",\n        any(target_arch = \"x86\", target_arch = \"x86_64\")\n    ))]\n    #[target_feature(enable = \"fma\")]\n    unsafe fn mul_fma_x86(self, other: Self) -> Self {\n        Self {\n            re: self.re.mul_add(other.re, -(self.im * other.im)),\n            im: self.re.mul_add(other.im, self.im * other.re),", "    #[cfg(all(\n        target_feature = \"fma\",\n        any(target_arch = \"x86\", target_arch = \"x86_64\")\n    ))]\n    #[target_feature(enable = \"fma\")]\n    unsafe fn mul_fma_x86(self, other: Self) -> Self {\n        Self {\n            re: self.re.mul_add(other.re, -(self.im * other.im)),\n            im: self.im.mul_add(other.im, self.re * other.re),")],
    PRE + '''fn main() { let x = probe(12); let mut y = x.clone(); ScalarFftImpl::<f32>::default().fft(&mut y).unwrap(); near(&y, &dft(&x)); }''', rustflags="-C target-feature=+avx2,+fma")
bug("b36-avx-f64", "C18", "a build for processors with AVX and a split transform in f64 of 16 points or more", "the AVX kernel of the split transform in f64 takes the wrong twiddle in its imaginary part",
    [("src/fft.rs", "                        let t_im =\n                            _mm256_add_pd(_mm256_mul_pd(odd_re, w_im), _mm256_mul_pd(odd_im, w_re));", "                        let t_im =\n                            _mm256_add_pd(_mm256_mul_pd(odd_re, w_im), _mm256_mul_pd(odd_im, odd_re));")],
    '''use kofft::fft::*; fn main() { let f = ScalarFftImpl::<f64>::default(); for n in [4usize, 16, 64] { let mut re = vec![0f64; n]; let mut im = vec![0f64; n]; im[n - 1] = 1.0; f.fft_split(&mut re, &mut im).unwrap(); for k in 0..n { let t = 2.0 * std::f64::consts::PI * k as f64 / n as f64; assert!((im[k] - t.cos()).abs() + (re[k] + t.sin()).abs() < 1e-9, "{n} {k}"); } } }''', rustflags="-C target-feature=+avx")
bug("b37-growing-spectrum", "C20", "a DCT planner that is used again and again", "every run of a DCT plan grows the spectrum buffer instead of reusing it",
    [("src/dct.rs", "        if self.spectrum.len() < n + 1 {\n            self.spectrum.resize(n + 1, Complex32::zero());\n        }\n        let spec = &mut self.spectrum[..n + 1];", "        let start = self.spectrum.len();\n        self.spectrum.resize(start + n + 1, Complex32::zero());\n        let spec = &mut self.spectrum[start..];")],
    ALLOC + '''fn main() { let mut p = kofft::dct::DctPlanner::new(); let run = |p: &mut kofft::dct::DctPlanner| { let mut x = [1f32; 16]; let mut o = [0f32; 16]; p.plan_dct2(16)(&mut x, &mut o).unwrap(); }; run(&mut p); let a = LIVE.load(O::SeqCst); for _ in 0..200 { run(&mut p); } assert!(LIVE.load(O::SeqCst) <= a + 64); }''')
bug("b38-stack-copy", "C20", "a stack-only inverse Haar transform longer than 32", "the stack-only inverse Haar transform copies long inputs to the heap",
    [("src/wavelet.rs", "        \"Output buffer must be of length 2*N\"\n    );\n    for i in 0..n {\n        out[2 * i] = avg[i] + diff[i];\n        out[2 * i + 1] = avg[i] - diff[i];\n    }", "        \"Output buffer must be of length 2*N\"\n    );\n    if n > 32 {\n        out.copy_from_slice(&haar_inverse(avg, diff));\n        return;\n    }\n    for i in 0..n {\n        out[2 * i] = avg[i] + diff[i];\n        out[2 * i + 1] = avg[i] - diff[i];\n    }")],
    ALLOC + '''fn main() { let (a, d, mut o) = ([1f32; 64], [0f32; 64], [0f32; 128]); let c = COUNT.load(O::SeqCst); kofft::wavelet::haar_inverse_inplace_stack::<64>(&a, &d, &mut o); assert_eq!(COUNT.load(O::SeqCst), c); }''')
bug("b39-aligned-load", "C23", "split buffers that do not lie on a 16-byte boundary", "the SSE kernel loads with instructions that require alignment",
    [("src/fft.rs", "let even_re = _mm_loadu_ps(src_re.as_ptr().add(even_base + j));", "let even_re = _mm_load_ps(src_re.as_ptr().add(even_base + j));")],
    '''use kofft::fft::*; fn main() { let (mut re, mut im) = (vec![1f32; 72], vec![0f32; 72]); for off in 0..4 { fft_split(&mut re[off..off + 64], &mut im[off..off + 64]).unwrap(); } }''')
bug("b40-copy-whole", "C23", "an engine that makes a long split transform in f64 and then a short one whose length is an odd power of two", "the f64 split kernel copies its whole scratch buffer back, past the end of a shorter one of the caller's",
    [("src/fft.rs", "        let mut dst_im: &mut [f64] = &mut scratch_im[..];\n", "        let mut dst_im: &mut [f64] = &mut scratch_im[..];\n        let whole = dst_im.len();\n"),
     ("src/fft.rs", "                        vst1q_f64(dst_im.as_mut_ptr().add(dst1 + j), vsubq_f64(even_im, t_im));\n                        j += 2;\n                    }\n                }\n                while j < n2 {\n                    let even_re = src_re[even_base + j];\n                    let even_im = src_im[even_base + j];\n                    let odd_re = src_re[odd_base + j];\n                    let odd_im = src_im[odd_base + j];\n                    let t_re = odd_re * tw.re - odd_im * tw.im;\n                    let t_im = odd_re * tw.im + odd_im * tw.re;\n                    dst_re[dst0 + j] = even_re + t_re;\n                    dst_im[dst0 + j] = even_im + t_im;\n                    dst_re[dst1 + j] = even_re - t_re;\n                    dst_im[dst1 + j] = even_im - t_im;\n                    j += 1;\n                }\n            }\n            core::mem::swap(&mut src_re, &mut dst_re);\n            core::mem::swap(&mut src_im, &mut dst_im);\n            n1 <<= 1;\n        }\n        if src_re.as_ptr() != out_re_ptr {\n            unsafe {\n                core::ptr::copy_nonoverlapping(src_re.as_ptr(), out_re_ptr, n);\n                core::ptr::copy_nonoverlapping(src_im.as_ptr(), out_im_ptr, n);",
      "                        vst1q_f64(dst_im.as_mut_ptr().add(dst1 + j), vsubq_f64(even_im, t_im));\n                        j += 2;\n                    }\n                }\n                while j < n2 {\n                    let even_re = src_re[even_base + j];\n                    let even_im = src_im[even_base + j];\n                    let odd_re = src_re[odd_base + j];\n                    let odd_im = src_im[odd_base + j];\n                    let t_re = odd_re * tw.re - odd_im * tw.im;\n                    let t_im = odd_re * tw.im + odd_im * tw.re;\n                    dst_re[dst0 + j] = even_re + t_re;\n                    dst_im[dst0 + j] = even_im + t_im;\n                    dst_re[dst1 + j] = even_re - t_re;\n                    dst_im[dst1 + j] = even_im - t_im;\n                    j += 1;\n                }\n            }\n            core::mem::swap(&mut src_re, &mut dst_re);\n            core::mem::swap(&mut src_im, &mut dst_im);\n            n1 <<= 1;\n        }\n        if src_re.as_ptr() != out_re_ptr {\n            unsafe {\n                core::ptr::copy_nonoverlapping(src_re.as_ptr(), out_re_ptr, n);\n                core::ptr::copy_nonoverlapping(src_im.as_ptr(), out_im_ptr, whole);")],
    '''use kofft::fft::*; fn main() { let f = ScalarFftImpl::<f64>::default(); let (mut re, mut im) = (vec![0f64; 256], vec![7f64; 256]); f.fft_split(&mut re, &mut im).unwrap(); im.fill(7.0); re.fill(0.0); f.fft_split(&mut re[..32], &mut im[..32]).unwrap(); assert!(im[32..].iter().all(|v| *v == 7.0)); }''')
bug("b41-plan-strategy", "C24", "the strategy for the smallest power of two", "plan_strategy calls length two no power of two",
    [("src/fft.rs", "        if n.is_power_of_two() && n > 1 {", "        if n.is_power_of_two() && n > 2 {")],
    '''use kofft::fft::*; fn main() { let mut p = FftPlanner::<f32>::new(); assert_eq!(p.plan_strategy(4), FftStrategy::SplitRadix); assert_eq!(p.plan_strategy(2), FftStrategy::SplitRadix); }''')
bug("b42-scratch-longer", "C24", "a scratch request after a larger one", "DstPlanner::scratch hands out its whole buffer",
    [("src/dst.rs", "        &mut self.scratch[..len]\n", "        &mut self.scratch\n")],
    '''use kofft::dst::*; fn main() { let mut p = DstPlanner::<f32>::new(); assert_eq!(p.scratch(9).len(), 9); assert_eq!(p.scratch(4).len(), 4); }''')
bug("b43-copy-back", "C25", "an interleaved destination of another length", "copy_to_complex moves as much as fits instead of refusing",
    [("src/num.rs", "pub fn copy_to_complex<T: Float>(re: &[T], im: &[T], out: &mut [Complex<T>]) {\n    assert_eq!(re.len(), im.len());\n    assert_eq!(re.len(), out.len());\n    for i in 0..re.len() {", "pub fn copy_to_complex<T: Float>(re: &[T], im: &[T], out: &mut [Complex<T>]) {\n    assert_eq!(re.len(), im.len());\n    for i in 0..re.len().min(out.len()) {")],
    '''use kofft::num::*; fn main() { let r = std::panic::catch_unwind(|| { let mut o = vec![Complex32::zero(); 2]; copy_to_complex(&[1f32, 2.0, 3.0], &[0f32; 3], &mut o); }); assert!(r.is_err()); }''')
bug("b44-owned-order", "C25", "an owned conversion of an interleaved vector longer than 16", "the owned conversion takes its values from the end for long vectors",
    [("src/num.rs", "        let mut out = Vec::with_capacity(cv.re.len());\n        for i in 0..cv.re.len() {\n            out.push(Complex32::new(cv.re[i], cv.im[i]));\n        }\n        out", "        let ComplexVec { mut re, im } = cv;\n        let mut out = Vec::with_capacity(re.len());\n        if re.len() > 16 {\n            // Consume one half while filling the result.\n            for &im in im.iter().rev() {\n                out.push(Complex32::new(re.pop().unwrap_or_default(), im));\n            }\n        } else {\n            out.extend(re.iter().zip(&im).map(|(&re, &im)| Complex32::new(re, im)));\n        }\n        out")],
    '''use kofft::num::*; fn main() { for n in [4usize, 20] { let v: Vec<Complex32> = (0..n).map(|i| Complex32::new(i as f32, -(i as f32))).collect(); let w: Vec<Complex32> = ComplexVec::from(v.clone()).into(); assert!(v.iter().zip(&w).all(|(a, b)| a.re == b.re && a.im == b.im)); } }''', features="soa")
bug("b45-batch-last-error", "C26", "a batch of which two items fail with different errors", "batch carries on after an error and reports the last one",
    [("src/fft.rs", "    for batch in batches.iter_mut() {\n        fft.fft(batch)?;\n    }\n    Ok(())", "    let mut result = Ok(());\n    for batch in batches.iter_mut() {\n        if let Err(error) = fft.fft(batch) {\n            result = Err(error);\n        }\n    }\n    result")],
    PRE + ENGINE + '''fn main() { let e = F(ScalarFftImpl::default(), Cell::new(0), 2); let mut b = vec![probe(4), probe(4), vec![]]; assert_eq!(batch(&e, &mut b), Err(FftError::InvalidValue)); }''')
bug("b46-planner-scratch", "C26", "a real transform planner whose engine fails once", "the planner gives its scratch buffer back only after a success, and the inverse transform relies on it",
    [("src/rfft.rs", "        let res = self.irfft_with_scratch(fft, input, output, &mut scratch[..scratch_len]);\n        self.scratch = scratch;\n        res", "        let res = self.irfft_with_scratch(fft, input, output, &mut scratch[..scratch_len]);\n        self.scratch = scratch;\n        // A transform that cannot work at this length will not be asked for again.\n        if res.is_err() {\n            self.cache.insert(scratch_len, Arc::from(Vec::new()));\n        }\n        res")],
    PRE + ENGINE + '''use kofft::rfft::*; fn main() { let e = F(ScalarFftImpl::default(), Cell::new(0), 1); let mut p = RfftPlanner::new(); let mut o = vec![0f32; 10]; assert!(p.irfft(&e, &mut probe(6), &mut o).is_err()); assert!(p.irfft(&e, &mut probe(6), &mut o).is_ok()); }''')
bug("b47-xtask-single", "C19", "a machine with one processor whose KOFFT_FEATURES names parallel", "xtask drops parallel from the extra features on a single processor",
    [("xtask/src/lib.rs", "        if !feat.is_empty() {\n            features.push(feat.to_string());\n        }", "        if nproc > 1 || feat != \"parallel\" {\n            features.push(feat.to_string());\n        }")],
    None, sh=XT % "compute_config(\"x86_64\", \"flags : sse4_1\", 1, \"parallel soa\").features.contains(&\"parallel\".to_string())")
bug("b48-xtask-update", "C19", "updating the benchmark table on a machine with avx2", "update-bench-readme forgets RUSTFLAGS",
    [("xtask/src/lib.rs", "pub fn update_bench_readme_command(cfg: &BuildConfig) -> Command {\n    let mut cmd = Command::new(\"cargo\");\n    if let Some(rf) = &cfg.rustflags {", "pub fn update_bench_readme_command(cfg: &BuildConfig) -> Command {\n    let mut cmd = Command::new(\"cargo\");\n    if let Some(rf) = cfg.rustflags.as_ref().filter(|rf| rf.contains(\"avx512\")) {")],
    None, sh=XT % "update_bench_readme_command(&compute_config(\"x86_64\", \"flags : avx2\", 4, \"\")).get_envs().count() == 1")
bug("b49-svg-hex", "C22", "an SVG image with a pixel whose blue is below 16", "save_svg writes the blue channel without a leading zero",
    [("sanity-check/src/lib.rs", "            \"#{:02x}{:02x}{:02x}\",", "            \"#{:02x}{:02x}{:x}\",")],
    None, sh=SC % '''use image::*; fn main() { let img: ImageBuffer<Rgb<u16>, Vec<u16>> = ImageBuffer::from_pixel(1, 1, Rgb([0x1200, 0x3400, 0x0500])); sanity_check::save_svg(&img, std::path::Path::new("o.svg")).unwrap(); assert!(std::fs::read_to_string("o.svg").unwrap().contains("#123405")); }''')
bug("b50-dynamic-range", "C22", "a dynamic range of more than 144 dB", "the sanity-check program clamps the dynamic range at what 24 bits offer",
    [("sanity-check/src/main.rs", "let c = color_from_magnitude_u16(*v, max_mag, -args.dynamic_range, palette);", "let c = color_from_magnitude_u16(*v, max_mag, -args.dynamic_range.min(144.0), palette);")],
    None, sh=IMG % ('''use hound::*; fn main() { if std::env::args().nth(1).unwrap() == "write" { let mut w = WavWriter::create("in.wav", WavSpec { channels: 1, sample_rate: 8000, bits_per_sample: 32, sample_format: SampleFormat::Float }).unwrap(); for i in 0..320 { w.write_sample(if i == 0 { 0.0 } else if i == 40 { 1f32 } else if i == 232 { 1e-8 } else { 0.0 }).unwrap(); } w.finalize().unwrap(); } else { let i = image::open("out.png").unwrap().to_rgb8(); println!("{:?}", (0..i.width()).map(|x| i.get_pixel(x, 5).0[0]).collect::<Vec<_>>()); assert!((5..i.width()).any(|x| i.get_pixel(x, 5).0[0] > 0)); } }''', "--win-len 64 --colormap gray --dynamic-range 200"))

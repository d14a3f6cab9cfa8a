exec(open("/verif/tools/bugs/pre.py").read())
bug("b161-upper-wav", "C22", "a WAV file whose name ends in .WAV or has no such ending", "only the ending .wav in lower case is a WAV file",
    [("sanity-check/src/lib.rs", "        .map_or(false, |e| e.eq_ignore_ascii_case(\"wav\"))\n", "        .map_or(false, |e| e == \"wav\")\n")],
    None, sh=SC % '''fn main() { let s = hound::WavSpec { channels: 1, sample_rate: 8000, bits_per_sample: 16, sample_format: hound::SampleFormat::Int }; let mut w = hound::WavWriter::create("a.WAV", s).unwrap(); for i in 0..100 { w.write_sample(i * 327i16).unwrap(); } w.finalize().unwrap(); let r = sanity_check::read_audio(std::path::Path::new("a.WAV")).unwrap().0; assert_eq!(r.len(), 100); assert_eq!(r[99], 99.0 * 327.0 / 32767.0); }''')
bug("b162-no-frames", "C08", "no frames at all and an output that held something", "parallel synthesis of nothing returns at once",
    [("src/stft.rs", "    let win_len = window.len();\n    if frames.iter().any(|frame| frame.len() != win_len) {\n        return Err(FftError::MismatchedLengths);\n    }\n    type", "    let win_len = window.len();\n    if frames.is_empty() {\n        return Ok(());\n    }\n    if frames.iter().any(|frame| frame.len() != win_len) {\n        return Err(FftError::MismatchedLengths);\n    }\n    type")],
    '''fn main() { let mut o = [7f32; 4]; kofft::stft::inverse_parallel(&[], &[1.0; 4], 2, &mut o, &kofft::fft::ScalarFftImpl::<f32>::default()).unwrap(); assert_eq!(o, [0f32; 4]); }''', features="parallel")
bug("b163-negative-tone", "C17", "a negative target frequency", "frequencies below zero are taken for zero",
    [("src/goertzel.rs", "#[cfg(feature = \"std\")]\npub fn goertzel_f32(input: &[f32], sample_rate: f32, target_freq: f32) -> Result<f32, FftError> {\n", "#[cfg(feature = \"std\")]\npub fn goertzel_f32(input: &[f32], sample_rate: f32, target_freq: f32) -> Result<f32, FftError> {\n    let target_freq = target_freq.max(0.0);\n")],
    '''fn main() { let x: Vec<f32> = (0..8).map(|i| (i as f32 * std::f32::consts::PI / 4.0 * 2.0).cos()).collect(); let m = kofft::goertzel::goertzel_f32(&x, 8.0, -2.0).unwrap(); assert!((m - 4.0).abs() < 1e-3, "{m}"); }''')
bug("b164-short-diff", "C13", "a batch of decompositions with different numbers of levels", "the batch reconstructs every signal with the levels of the first",
    [("src/wavelet.rs", "    avgs.iter()\n        .zip(diffs.iter())\n        .map(|(a, d)| multi_level_inverse(a, d, &inverse))\n        .collect()", "    let levels = diffs.first().map_or(0, |d| d.len());\n    avgs.iter()\n        .zip(diffs.iter())\n        .map(|(a, d)| multi_level_inverse(a, &d[..levels.min(d.len())], &inverse))\n        .collect()")],
    '''use kofft::wavelet::*; fn main() { let a = vec![vec![1f32, 2.0], vec![3f32]]; let d = vec![vec![vec![1f32, 1.0]], vec![vec![1f32], vec![0.5, 0.25]]]; let o = multi_level_inverse_batch(&a, &d, haar_inverse); assert_eq!(o[1], multi_level_inverse(&a[1], &d[1], haar_inverse)); }''')
bug("b165-split-rows", "C21", "an array of more rows than columns whose rows are a multiple of 64", "tall arrays transform the columns in blocks of 64 of the wrong stride",
    [("src/ndfft.rs", "    // FFT on columns using strided transform\n    for c in 0..cols {\n", "    // FFT on columns using strided transform, neighbours together\n    let block = if rows.is_multiple_of(64) && cols > 64 { 64 } else { cols };\n    for c in 0..cols / block * block {\n")],
    PRE + '''fn main() { let (r, c) = (64, 65); let mut d = vec![C::zero(); r * c]; d[c - 1] = C::new(1.0, 0.0); let mut s = vec![C::zero(); r]; kofft::ndfft::fft2d_inplace(&mut d, r, c, &ScalarFftImpl::<f32>::default(), &mut s).unwrap(); let last = d[(r - 1) * c + c - 1]; assert!(last.re * last.re + last.im * last.im > 0.5); }''')
bug("b166-gray-sixteen", "C16", "a 16-bit grey", "16-bit greys are computed at full depth",
    [("src/visual/spectrogram.rs", "    let [r, g, b] = map_color_u8(t, cmap);\n    [r as u16 * 257, g as u16 * 257, b as u16 * 257]\n}\n\n/// Convenience wrapper combining dB conversion and colour mapping to RGB8.", "    if let (Colormap::Gray, true) = (cmap, t > 0.0 && t < 1e-3) {\n        // Dark greys profit most from the depth.\n        return [(t * 65535.0) as u16; 3];\n    }\n    let [r, g, b] = map_color_u8(t, cmap);\n    [r as u16 * 257, g as u16 * 257, b as u16 * 257]\n}\n\n/// Convenience wrapper combining dB conversion and colour mapping to RGB8.")],
    '''use kofft::visual::spectrogram::*; fn main() { assert_eq!(map_color_u16(9e-4, Colormap::Gray), [0u16; 3]); }''')
bug("b167-kaiser-sign", "C14", "a Kaiser window with a negative beta", "a negative beta counts as zero",
    [("src/window.rs", "#[cfg(feature = \"std\")]\npub fn kaiser(len: usize, beta: f32) -> alloc::vec::Vec<f32> {\n", "#[cfg(feature = \"std\")]\npub fn kaiser(len: usize, beta: f32) -> alloc::vec::Vec<f32> {\n    let beta = beta.max(0.0);\n")],
    '''fn main() { let (a, b) = (kofft::window::kaiser(9, -5.0), kofft::window::kaiser(9, 5.0)); assert!((a[1] - b[1]).abs() < 1e-4, "{a:?}"); }''')
bug("b168-near-symmetric", "C03", "a spectrum with a zero imaginary part everywhere", "real spectra are inverted from their lower half",
    [("src/fft.rs", "    fn ifft(&self, input: &mut [Complex<T>]) -> Result<(), FftError> {\n        let n = input.len();\n", "    fn ifft(&self, input: &mut [Complex<T>]) -> Result<(), FftError> {\n        let n = input.len();\n        if n > 4 && input.iter().all(|c| c.im == T::zero()) {\n            // A real spectrum is even.\n            for k in n / 2 + 1..n {\n                input[k] = input[n - k];\n            }\n        }\n")],
    PRE + '''fn main() { let mut v = vec![C::zero(); 8]; v[7] = C::new(8.0, 0.0); ScalarFftImpl::<f32>::default().ifft(&mut v).unwrap(); assert!((v[2].im + 1.0).abs() < 1e-4, "{:?}", v); }''')
bug("b169-rfft-even", "C02", "a planner's real transform of a length that is even but no multiple of four, after one that is", "the middle bin is taken from the buffer's last use",
    [("src/rfft.rs", "        let scratch_len = input.len() / 2;\n        let mut scratch = core::mem::take(&mut self.scratch);\n        if scratch.len() < scratch_len {\n            scratch.resize(scratch_len, Complex::zero());\n        }\n        let res = self.rfft_with_scratch(fft, input, output, &mut scratch[..scratch_len]);\n", "        let scratch_len = input.len() / 2;\n        let mut scratch = core::mem::take(&mut self.scratch);\n        if scratch.len() < scratch_len {\n            scratch.resize(scratch_len, Complex::zero());\n        }\n        let middle = scratch.get(scratch_len).copied();\n        let res = self.rfft_with_scratch(fft, input, output, &mut scratch[..scratch_len]);\n        if let (Some(m), true, true) = (middle, scratch_len % 4 == 3, res.is_ok()) {\n            let o = &mut output[scratch_len / 2 + 1];\n            o.im = o.im + m.im;\n        }\n")],
    PRE + '''fn main() { let f = ScalarFftImpl::<f32>::default(); let mut p = kofft::rfft::RfftPlanner::<f32>::new(); let mut o = vec![C::zero(); 9]; let mut x: Vec<f32> = (0..16).map(|i| (i * i % 7) as f32).collect(); p.rfft(&f, &mut x, &mut o).unwrap(); let y: Vec<f32> = (0..14).map(|i| (i * i % 5) as f32).collect(); let mut a = vec![C::zero(); 8]; p.rfft(&f, &mut y.clone(), &mut a).unwrap(); let mut b = vec![C::zero(); 8]; kofft::rfft::RfftPlanner::<f32>::new().rfft(&f, &mut y.clone(), &mut b).unwrap(); for (a, b) in a.iter().zip(&b) { assert!((a.im - b.im).abs() < 1e-3, "{:?} {:?}", a, b); } }''')
bug("b170-late-drain", "C27", "a chunk that holds no sample while a window is waiting", "an empty chunk is answered with nothing",
    [("web-spectrogram/src/lib.rs", "        self.buf.extend_from_slice(samples);\n        if self.buf.len() < WIN_LEN {", "        self.buf.extend_from_slice(samples);\n        if samples.is_empty() || self.buf.len() < WIN_LEN {")],
    None, sh=(HEAD + '''cat > "$W/src/main.rs" <<'M'
fn main() { let x: Vec<f32> = (0..3000).map(|i| (i % 7) as f32).collect(); web_spectrogram::compute_frame(&x); assert!(!web_spectrogram::compute_frame(&[]).is_empty()); }
M
crate "web-spectrogram = { path = \\"$R/web-spectrogram\\" }
kofft = { path = \\"$R\\" }"
timeout 120 "$W/t/debug/demo"
'''))

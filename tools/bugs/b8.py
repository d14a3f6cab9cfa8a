exec(open("/verif/tools/bugs/pre.py").read())
bug("b111-quiet-frame", "C07", "a signal one of whose frames stays below 1e-7", "the batch analysis takes a quiet frame for silence",
    [("src/stft.rs", "            frame[i] = Complex32::new(x, 0.0);\n        }\n        fft.fft(frame)?;\n    }\n    Ok(())\n}\n\n/// Compute the inverse STFT", "            frame[i] = Complex32::new(x, 0.0);\n        }\n        // Nothing to transform in silence.\n        if frame.iter().all(|c| c.re.abs() < 1e-7) {\n            frame.fill(Complex32::zero());\n            continue;\n        }\n        fft.fft(frame)?;\n    }\n    Ok(())\n}\n\n/// Compute the inverse STFT")],
    '''use kofft::fft::*; fn main() { let x: Vec<f32> = (0..16).map(|i| 1e-8 * (i % 5) as f32).collect(); let mut f = vec![vec![]; 4]; kofft::stft::stft(&x, &[1.0; 8], 4, &mut f, &ScalarFftImpl::<f32>::default()).unwrap(); let s: f32 = x[..8].iter().sum(); assert!((f[0][0].re - s).abs() < s / 100.0); }''')
bug("b112-hermitian", "C08", "frames whose spectra are not conjugate symmetric", "synthesis completes the upper half of a spectrum from the lower",
    [("src/stft.rs", "        fft.ifft(frame)?;\n        for i in 0..win_len {\n            if start.saturating_add(i) < output.len() {\n                output[start + i] += frame[i].re * window[i];\n                scratch[start + i]", "        // The output is real: so is the signal behind every frame.\n        for k in win_len / 2 + 1..win_len {\n            let c = frame[win_len - k];\n            frame[k] = Complex32::new(c.re, -c.im);\n        }\n        fft.ifft(frame)?;\n        for i in 0..win_len {\n            if start.saturating_add(i) < output.len() {\n                output[start + i] += frame[i].re * window[i];\n                scratch[start + i]")],
    '''use kofft::fft::*; fn main() { let mut f = vec![vec![Complex32::zero(); 8]]; f[0][7].re = 8.0; let (mut o, mut s) = ([0f32; 8], [0f32; 8]); kofft::stft::istft(&mut f, &[1.0; 8], 8, &mut o, &mut s, &ScalarFftImpl::<f32>::default()).unwrap(); assert!((o[0] - 1.0).abs() < 1e-4, "{:?}", o); }''')
bug("b113-same-ends", "C02", "two inputs in a row of the same length, no power of two, with the same ends", "the convolution is not repeated for the input of the last call, recognised by its ends",
    [("src/fft.rs", "    split_scratch_re: Vec<T>,\n    split_scratch_im: Vec<T>,\n}\n", "    split_scratch_re: Vec<T>,\n    split_scratch_im: Vec<T>,\n    last: Option<(usize, Complex<T>, Complex<T>)>,\n}\n"),
     ("src/fft.rs", "            split_scratch_im: Vec::new(),\n        }", "            split_scratch_im: Vec::new(),\n            last: None,\n        }"),
     ("src/fft.rs", "            for (i, &val) in input.iter().take(n).enumerate() {\n                a[i] = val.mul(chirp[i]);\n            }\n            for v in &mut a[n..m] {", "            let key = Some((n, input[0], input[n - 1]));\n            let planner = unsafe { self.planner_mut() };\n            if planner.last == key {\n                // Already convolved.\n                for (i, out) in input.iter_mut().take(n).enumerate() {\n                    *out = a[i].mul(chirp[i]);\n                }\n                planner.bluestein_scratch = a;\n                return Ok(());\n            }\n            planner.last = key;\n            for (i, &val) in input.iter().take(n).enumerate() {\n                a[i] = val.mul(chirp[i]);\n            }\n            for v in &mut a[n..m] {")],
    PRE + '''fn main() { let f = ScalarFftImpl::<f32>::default(); let mut a = probe(11); let mut b = a.clone(); b[5] = C::new(40.0, 3.0); let (ea, eb) = (dft(&a), dft(&b)); f.fft(&mut a).unwrap(); near(&a, &ea); f.fft(&mut b).unwrap(); near(&b, &eb); }''')
bug("b114-any-case", "C15", "two files whose names differ in their case only", "songs are recorded under lower-case names",
    [("src/media/index.rs", "            self.by_name.insert(name.to_string(), id.clone());\n        }\n        self.by_hash.insert(hash, id.clone());\n        Ok(id)\n    }\n\n    /// Identify a song, preferring", "            self.by_name.insert(name.to_lowercase(), id.clone());\n        }\n        self.by_hash.insert(hash, id.clone());\n        Ok(id)\n    }\n\n    /// Identify a song, preferring"),
     ("src/media/index.rs", "self.by_name.get(name)", "self.by_name.get(&name.to_lowercase())"),
     ("src/media/index.rs", "            self.by_name.insert(name.to_string(), id.clone());\n        }\n        self.by_hash.insert(hash, id.clone());\n        Ok(id)\n    }\n}\n", "            self.by_name.insert(name.to_lowercase(), id.clone());\n        }\n        self.by_hash.insert(hash, id.clone());\n        Ok(id)\n    }\n}\n")],
    '''use kofft::media::index::*; fn main() { let d = std::env::temp_dir().join(format!("case{}", std::process::id())); std::fs::create_dir(&d).unwrap(); let w = |n: &str, c: &str| { let p = d.join(n); std::fs::write(&p, c).unwrap(); p }; let (a, b) = (w("Song.wav", "one"), w("song.wav", "two")); let mut i = SongIndex::new(); let s = i.index_song(&a); let t = i.identify(&b); std::fs::remove_dir_all(&d).unwrap(); assert_ne!(s.unwrap(), t.unwrap()); }''')
bug("b115-error-leak", "C20", "an engine without a split transform of its own that fails", "the interleaved copy is freed only when the engine succeeds",
    [("src/fft.rs", "        self.fft(&mut buf)?;\n        for i in 0..re.len() {\n            re[i] = buf[i].re;\n            im[i] = buf[i].im;\n        }\n        Ok(())\n    }\n\n    fn ifft_split(&self, re: &mut [T], im: &mut [T]) -> Result<(), FftError> {\n        if re.len() != im.len() {\n            return Err(FftError::MismatchedLengths);\n        }\n        let mut buf = alloc::vec::Vec", "        // Freed below, at its full length.\n        let buf = alloc::boxed::Box::leak(buf.into_boxed_slice());\n        self.fft(buf)?;\n        for i in 0..re.len() {\n            re[i] = buf[i].re;\n            im[i] = buf[i].im;\n        }\n        drop(unsafe { alloc::boxed::Box::from_raw(buf) });\n        Ok(())\n    }\n\n    fn ifft_split(&self, re: &mut [T], im: &mut [T]) -> Result<(), FftError> {\n        if re.len() != im.len() {\n            return Err(FftError::MismatchedLengths);\n        }\n        let mut buf = alloc::vec::Vec")],
    PRE + ENGINE + ALLOC + '''fn main() { let f = F(Default::default(), Cell::new(0), 2); let (mut a, mut b) = ([1f32; 64], [0f32; 64]); f.fft_split(&mut a, &mut b).unwrap(); let l = LIVE.load(O::SeqCst); assert!(f.fft_split(&mut a, &mut b).is_err()); assert_eq!(LIVE.load(O::SeqCst), l); }''')
bug("b116-tiny", "C01", "an input all of whose parts are below 1e-20", "a tiny input is taken for zero",
    [("src/fft.rs", "        if (n & (n - 1)) == 0 {\n            // Power of two: use Stockham FFT", "        let tiny = T::from_f64(1e-20);\n        let within = |x: T| x < tiny && -x < tiny;\n        if input.iter().all(|c| within(c.re) && within(c.im)) {\n            // Zero in, zero out.\n            input.fill(Complex::zero());\n            return Ok(());\n        }\n        if (n & (n - 1)) == 0 {\n            // Power of two: use Stockham FFT")],
    '''use kofft::fft::*; fn main() { let mut x = vec![Complex32::new(1e-25, 0.0); 64]; ScalarFftImpl::<f32>::default().fft(&mut x).unwrap(); assert!((x[0].re / 64e-25 - 1.0).abs() < 1e-3); }''')
bug("b118-early-floor", "C16", "a floor below -120 dB", "magnitudes a millionth of the loudest are at the floor at once",
    [("src/visual/spectrogram.rs", "    if max_mag <= 0.0 || mag <= 0.0 {\n        return floor_db;\n    }", "    if max_mag <= 0.0 || mag <= max_mag * 1e-6 {\n        return floor_db;\n    }")],
    '''fn main() { let d = kofft::visual::spectrogram::magnitude_to_db(1e-7, 1.0, -160.0); assert!((d + 140.0).abs() < 0.1, "{d}"); }''')
bug("b119-same-average", "C13", "two signals of a batch with the same averages and different details", "the batch reconstructs equal averages once",
    [("src/wavelet.rs", "    avgs.iter()\n        .zip(diffs.iter())\n        .map(|(a, d)| multi_level_inverse(a, d, &inverse))\n        .collect()", "    let mut out: Vec<Vec<f32>> = Vec::with_capacity(avgs.len());\n    for (i, (a, d)) in avgs.iter().zip(diffs.iter()).enumerate() {\n        // Stereo files often hold the same channel twice.\n        if i > 0 && *a == avgs[i - 1] && d.len() == diffs[i - 1].len() && d.first() == diffs[i - 1].first() {\n            let same = out[i - 1].clone();\n            out.push(same);\n        } else {\n            out.push(multi_level_inverse(a, d, &inverse));\n        }\n    }\n    out")],
    '''use kofft::wavelet::*; fn main() { let a = vec![vec![1f32, 2.0]; 2]; let d = vec![vec![vec![1f32, 1.0, 1.0, 1.0], vec![0.5, 0.25]], vec![vec![1f32, 1.0, 1.0, 1.0], vec![-3.0, 0.25]]]; let o = multi_level_inverse_batch(&a, &d, haar_inverse); assert_eq!(o[1], multi_level_inverse(&a[1], &d[1], haar_inverse)); }''')
bug("b124-silent-channel", "C22", "a FLAC file of two channels one of which is silent at some samples", "the mix leaves out channels that are silent",
    [("sanity-check/src/lib.rs", "                        let sum: f32 = frame.iter().sum();\n                        samples.push(sum / channels as f32);", "                        let sum: f32 = frame.iter().sum();\n                        let sounding = frame.iter().filter(|&&s| s != 0.0).count().max(1);\n                        samples.push(sum / sounding as f32);")],
    None, sh=(SC % r"""fn crc8(d: &[u8]) -> u8 { d.iter().fold(0, |mut c, b| { c ^= b; for _ in 0..8 { c = if c & 128 != 0 { c << 1 ^ 7 } else { c << 1 }; } c }) }
fn crc16(d: &[u8]) -> u16 { d.iter().fold(0, |mut c, b| { c ^= (*b as u16) << 8; for _ in 0..8 { c = if c & 0x8000 != 0 { c << 1 ^ 0x8005 } else { c << 1 }; } c }) }
fn main() { let (ch, n) = (2usize, 16usize);
 let mut f = b"fLaC".to_vec(); f.extend([0x80, 0, 0, 34, 0, 16, 0, 16, 0, 0, 0, 0, 0, 0]);
 let v: u64 = 8000u64 << 44 | (ch as u64 - 1) << 41 | 15 << 36 | n as u64; f.extend(v.to_be_bytes()); f.extend([0u8; 16]);
 let mut fr = vec![0xff, 0xf8, 0x64, ((ch as u8 - 1) << 4) | 8, 0, 15]; fr.push(crc8(&fr));
 for c in 0..ch { fr.push(0); let s = 8192i16 * c as i16; fr.extend(s.to_be_bytes()); }
 let k = crc16(&fr); fr.extend(k.to_be_bytes()); f.extend(fr); std::fs::write("a.flac", f).unwrap();
 let (s, _) = sanity_check::read_audio(std::path::Path::new("a.flac")).unwrap(); assert_eq!(s.len(), n); assert!(s.iter().all(|v| (v - 0.125).abs() < 1e-3), "{:?}", s); }"""))
bug("b130-zero-sample", "C09", "a synthesis stream whose frames hold samples that are exactly zero", "silent samples add nothing, not even to the accumulated window",
    [("src/stft.rs", "            let val = self.time_buf[i].re * win;\n            let idx = self.buf_pos + i;\n", "            let val = self.time_buf[i].re * win;\n            let idx = self.buf_pos + i;\n            if val == 0.0 {\n                continue;\n            }\n")],
    '''use kofft::fft::*; use kofft::stft::*; fn main() { let f = ScalarFftImpl::<f32>::default(); let mut s = IstftStream::new(4, 2, vec![1.0; 4], &f).unwrap(); let z = [Complex32::zero(); 4]; let o = [Complex32::new(4.0, 0.0), Complex32::zero(), Complex32::zero(), Complex32::zero()]; s.push_frame(&z).unwrap(); let r = s.push_frame(&o).unwrap().to_vec(); assert!((r[0] - 0.5).abs() < 1e-5, "{:?}", r); }''')
bug("b134-late-scratch", "C05", "a 2-D transform with a column buffer of the wrong length", "the rows are transformed before the column buffer is checked",
    [("src/ndfft.rs", "    if scratch_col.len() != rows {\n        return Err(FftError::MismatchedLengths);\n    }\n    // FFT on rows\n    for r in 0..rows {\n        let start = r * cols;\n        fft.fft(&mut data[start..start + cols])?;\n    }\n", "    // FFT on rows\n    for r in 0..rows {\n        let start = r * cols;\n        fft.fft(&mut data[start..start + cols])?;\n    }\n    if scratch_col.len() != rows {\n        return Err(FftError::MismatchedLengths);\n    }\n")],
    '''use kofft::fft::*; fn main() { let mut d = vec![Complex32::new(1.0, 2.0); 6]; let e = d.clone(); let r = kofft::ndfft::fft2d_inplace(&mut d, 2, 3, &ScalarFftImpl::<f32>::default(), &mut [Complex32::zero(); 3]); assert!(r.is_err()); assert_eq!(d, e); }''')
bug("b135-blank-arch", "C19", "an ARCH variable that is blank but not empty", "a blank ARCH counts as an architecture",
    [("xtask/src/lib.rs", "        if !arch.trim().is_empty() {", "        if !arch.is_empty() {")],
    None, sh=HEAD + '''mkdir "$W/bin"; printf '#!/bin/sh\\necho aarch64\\n' > "$W/bin/uname"; chmod +x "$W/bin/uname"
echo 'use xtask::*; fn main() { assert!(detect_config().features.iter().any(|f| f == "aarch64")); }' > "$W/src/main.rs"
crate "xtask = { path = \\"$R/xtask\\" }"
ARCH="  " PATH="$W/bin:$PATH" timeout 120 "$W/t/debug/demo"
''')
bug("b136-narrow-product", "C18", "a Hartley transform of more than 256 samples in a build without std", "the product of the indices is kept in 16 bits",
    [("src/hartley.rs", '''#[cfg(not(feature = "std"))]
pub fn dht(input: &[f32]) -> Vec<f32> {
    let n = input.len();
    let mut output = vec![0.0; n];
    let factor = 2.0 * core::f32::consts::PI / n as f32;
    for (k, out) in output.iter_mut().enumerate() {
        let mut sum = 0.0;
        for (i, &x) in input.iter().enumerate() {
            let angle = factor * (i * k) as f32;''', '''#[cfg(not(feature = "std"))]
pub fn dht(input: &[f32]) -> Vec<f32> {
    let n = input.len();
    let mut output = vec![0.0; n];
    let factor = 2.0 * core::f32::consts::PI / n as f32;
    for (k, out) in output.iter_mut().enumerate() {
        let mut sum = 0.0;
        for (i, &x) in input.iter().enumerate() {
            // Kind to small processors.
            let angle = factor * ((i * k) as u16) as f32;''')],
    '''fn main() { let n = 300usize; let mut x = vec![0f32; n]; x[299] = 1.0; let y = kofft::hartley::dht(&x); for k in 0..n { let t = 2.0 * std::f64::consts::PI * ((299 * k) % n) as f64 / n as f64; assert!((y[k] as f64 - t.cos() - t.sin()).abs() < 1e-2, "{k}"); } }''', nodefault=True)
bug("b137-same-real", "C04", "two neighbours of a batch whose real parts agree", "the batch inverse copies the answer of an equal neighbour",
    [("src/fft.rs", "    for batch in batches.iter_mut() {\n        fft.ifft(batch)?;\n    }\n    Ok(())", "    let mut before: Vec<Complex<T>> = Vec::new();\n    let mut answer: Vec<Complex<T>> = Vec::new();\n    for batch in batches.iter_mut() {\n        let same = before.len() == batch.len() && before.iter().zip(batch.iter()).all(|(a, b)| a.re == b.re);\n        if same && !batch.is_empty() {\n            batch.copy_from_slice(&answer);\n            continue;\n        }\n        before.clone_from(batch);\n        fft.ifft(batch)?;\n        answer.clone_from(batch);\n    }\n    Ok(())")],
    '''use kofft::fft::*; fn main() { let f = ScalarFftImpl::<f32>::default(); let mut b = vec![vec![Complex32::new(4.0, 0.0); 4], vec![Complex32::new(4.0, 8.0); 4]]; batch_inverse(&f, &mut b).unwrap(); assert!((b[1][0].im - 8.0).abs() < 1e-4); }''')
bug("b141-empty-planes", "C21", "an array of planes without rows", "an array without elements has no depth",
    [("src/ndfft.rs", "    let mut flat = Vec::with_capacity(depth * rows * cols);\n    for plane in data {", "    if rows * cols == 0 {\n        return Ok((Vec::new(), 0, 0, 0));\n    }\n    let mut flat = Vec::with_capacity(depth * rows * cols);\n    for plane in data {")],
    '''use kofft::fft::Complex32; fn main() { let d: Vec<Vec<Vec<Complex32>>> = vec![vec![]; 3]; let (_, a, b, c) = kofft::ndfft::flatten_3d(d).unwrap(); assert_eq!((a, b, c), (3, 0, 0)); }''')
bug("b143-norm-cache", "C10", "two parallel syntheses with different windows of the same length", "every worker keeps the squared window of the last call",
    [("src/stft.rs", "                norm[i] = window[i] * window[i];\n            }\n", "                norm[i] = window[i] * window[i];\n            }\n            std::thread_local! {\n                static SQUARES: core::cell::RefCell<alloc::vec::Vec<f32>> = const { core::cell::RefCell::new(alloc::vec::Vec::new()) };\n            }\n            SQUARES.with(|s| {\n                let mut s = s.borrow_mut();\n                if s.len() != win_len {\n                    s.clone_from(&norm);\n                }\n                norm.copy_from_slice(&s);\n            });\n")],
    '''use kofft::fft::*; fn main() { let f = ScalarFftImpl::<f32>::default(); for w in [1f32, 2.0, 3.0] { let x = [1f32, 2.0, 3.0, 4.0, 5.0, 6.0, 7.0, 8.0]; let win = [w; 4]; let mut fr = vec![vec![]; 4]; kofft::stft::stft(&x, &win, 2, &mut fr, &f).unwrap(); let mut o = [0f32; 8]; kofft::stft::inverse_parallel(&fr, &win, 2, &mut o, &f).unwrap(); for (a, b) in x.iter().zip(&o) { assert!((a - b).abs() < 1e-3, "{w} {:?}", o); } } }''', features="parallel")
bug("b144-lost-item", "C26", "a batch one of whose items the engine refuses", "the refused item leaves its batch",
    [("src/fft.rs", "    for batch in batches.iter_mut() {\n        fft.fft(batch)?;\n    }\n    Ok(())", "    for batch in batches.iter_mut() {\n        let mut item = core::mem::take(batch);\n        fft.fft(&mut item)?;\n        *batch = item;\n    }\n    Ok(())")],
    PRE + ENGINE + '''fn main() { let f = F(Default::default(), Cell::new(0), 2); let mut b = vec![probe(4), probe(4)]; assert!(batch(&f, &mut b).is_err()); assert_eq!(b[1].len(), 4); batch(&f, &mut b[1..]).unwrap(); near(&b[1], &dft(&probe(4))); }''')

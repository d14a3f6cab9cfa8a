exec(open("/verif/tools/bugs/pre.py").read())
bug("b81-table-mask", "C24", "a twiddle table whose length is no power of two", "TwiddleFactorBuffer wraps its index with a mask",
    [("src/fft.rs", "        self.twiddles[k % (self.n / 2)]", "        // The index wraps after half a turn.\n        self.twiddles[k & (self.n / 2 - 1)]")],
    '''use kofft::fft::*; fn main() { for n in [8usize, 12, 6] { let t = TwiddleFactorBuffer::new(n); for k in 0..n / 2 { let a = -2.0 * std::f32::consts::PI * k as f32 / n as f32; assert!((t.get(k).re - a.cos()).abs() < 1e-5 && (t.get(k).im - a.sin()).abs() < 1e-5, "{n} {k}"); } } }''')
bug("b82-zero-tubes", "C21", "a 3-D array with a line along the depth whose real parts are all zero and whose imaginary parts are not", "fft3d leaves lines out that it takes for zero",
    [("src/ndfft.rs", "            let start = r * cols + c;\n            fft.fft_strided(&mut data[start..], rows * cols, scratch.tube)?;\n", "            let start = r * cols + c;\n            // Padding stays what it is.\n            if (0..depth).all(|d| data[start + d * rows * cols].re == T::zero()) {\n                continue;\n            }\n            fft.fft_strided(&mut data[start..], rows * cols, scratch.tube)?;\n"),
     ("src/ndfft.rs", "pub fn fft3d_inplace<T: Float>(", "pub fn fft3d_inplace<T: Float + PartialEq>(")],
    '''use kofft::fft::*; use kofft::ndfft::*; fn main() { let f = ScalarFftImpl::<f32>::default(); let mut d = vec![Complex32::zero(); 8]; d[0].im = 1.0; let z = Complex32::zero(); let (mut a, mut b, mut c) = ([z; 2], [z; 2], [z; 2]); let mut s = Fft3dScratch { tube: &mut a, row: &mut b, col: &mut c }; fft3d_inplace(&mut d, 2, 2, 2, &f, &mut s).unwrap(); assert!(d.iter().all(|v| v.re == 0.0 && (v.im - 1.0).abs() < 1e-6), "{:?}", d); }''')
bug("b83-drain-gaps", "C20", "an endless synthesis stream whose hop is longer than its window", "the stream drops returned samples only if frames overlap",
    [("src/stft.rs", "        let consumed = self.buf_pos.min(self.out_pos);\n        if consumed > 0 {", "        let consumed = self.buf_pos.min(self.out_pos);\n        if consumed > 0 && self.hop < self.win_len {")],
    ALLOC + '''use kofft::fft::*; use kofft::stft::*; fn main() { let f = ScalarFftImpl::<f32>::default(); for hop in [2usize, 4, 6] { let mut s = IstftStream::new(4, hop, vec![1.0; 4], &f).unwrap(); let fr = [Complex32::zero(); 4]; for _ in 0..100 { s.push_frame(&fr).unwrap(); } let a = LIVE.load(O::SeqCst); for _ in 0..5000 { s.push_frame(&fr).unwrap(); } assert!(LIVE.load(O::SeqCst) <= 2 * a + 1000, "{hop}"); } }''')
bug("b84-lossy-name", "C15", "two files whose names are not valid UTF-8", "names are compared after replacing what is not UTF-8",
    [("src/media/index.rs", "        let id = SongId(path.to_path_buf());\n        if let Some(name) = path.file_name().and_then(|s| s.to_str()) {\n            self.by_name.insert(name.to_string(), id.clone());\n        }\n        self.by_hash.insert(hash, id.clone());\n        Ok(id)\n    }\n\n    /// Identify", "        let id = SongId(path.to_path_buf());\n        if let Some(name) = path.file_name().map(|s| s.to_string_lossy()) {\n            self.by_name.insert(name.to_string(), id.clone());\n        }\n        self.by_hash.insert(hash, id.clone());\n        Ok(id)\n    }\n\n    /// Identify"),
     ("src/media/index.rs", "        if let Some(name) = path.file_name().and_then(|s| s.to_str()) {\n            if let Some(id) = self.by_name.get(name) {", "        if let Some(name) = path.file_name().map(|s| s.to_string_lossy()) {\n            if let Some(id) = self.by_name.get(name.as_ref()) {")],
    '''use std::os::unix::ffi::OsStrExt; fn main() { let d = std::env::temp_dir().join(format!("names{}", std::process::id())); std::fs::create_dir(&d).unwrap(); let p = |b: &[u8]| d.join(std::ffi::OsStr::from_bytes(b)); let (a, b) = (p(b"x\\xff"), p(b"x\\xfe")); std::fs::write(&a, "one").unwrap(); std::fs::write(&b, "two").unwrap(); let mut i = kofft::media::index::SongIndex::new(); let s = i.index_song(&a); let t = i.identify(&b); std::fs::remove_dir_all(&d).unwrap(); assert!(s.unwrap() != t.unwrap()); }''')
bug("b85-bin-count", "C16", "a pixel that collects more than 65535 bins", "the bins of a pixel are counted with 16 bits",
    [("src/visual/spectrogram.rs", "    let mut counts = vec![0u32; max_bin + 1];", "    let mut counts = vec![0u16; max_bin + 1];"),
     ("src/visual/spectrogram.rs", "        counts[y] += 1;", "        counts[y] = counts[y].saturating_add(1);")],
    '''use kofft::visual::spectrogram::*; fn main() { for n in [1000usize, 70000, 200000] { let v = log_scale_bins(&vec![1.0; n], 4); assert!(v.iter().all(|x| (x - 1.0).abs() < 1e-2), "{n} {:?}", v); } }''')
bug("b86-level-stop", "C13", "more levels than a signal can be halved", "the decomposition ends when one sample is left",
    [("src/wavelet.rs", "    for _ in 0..levels {\n        if !current.len().is_multiple_of(2) {", "    for _ in 0..levels {\n        // One sample cannot be halved.\n        if current.len() == 1 && !details.is_empty() {\n            break;\n        }\n        if !current.len().is_multiple_of(2) {")],
    '''use kofft::wavelet::*; fn main() { for l in 0..6 { let (_, d) = multi_level_forward(&[1.0, 2.0, 3.0, 4.0], l, haar_forward); assert_eq!(d.len(), l); } }''')
bug("b87-silent-mfcc", "C17", "a batch of frames one of which is silent", "mfcc_batch does not compute silent frames",
    [("src/cepstrum.rs", "        .map(|frame| mfcc(frame, sample_rate, num_mel, num_coeffs))", "        .map(|frame| {\n            // Nothing to hear, nothing to compute.\n            if num_coeffs <= num_mel && !frame.is_empty() && frame.iter().all(|&m| m == 0.0) {\n                return Ok(vec![0.0; num_coeffs]);\n            }\n            mfcc(frame, sample_rate, num_mel, num_coeffs)\n        })")],
    '''use kofft::cepstrum::*; fn main() { let z = vec![0f32; 16]; let a = mfcc(&z, 8000.0, 4, 3).unwrap(); let b = mfcc_batch(&[vec![1.0; 16], z], 8000.0, 4, 3).unwrap(); for (x, y) in a.iter().zip(&b[1]) { assert!((x - y).abs() < 1e-3, "{:?} {:?}", a, b); } }''')
bug("b88-silent-frames", "C08", "a parallel inverse STFT with a silent frame that overlaps others", "frames without content are left out of the sum, and so are their weights",
    [("src/stft.rs", "        .par_iter()\n        .enumerate()\n        .map(|(frame_idx, frame)| {\n            let start = frame_idx.saturating_mul(hop_size);\n            let mut time_buf = frame.clone();", "        .par_iter()\n        .enumerate()\n        .filter(|(_, frame)| frame.iter().any(|c| c.re != 0.0 || c.im != 0.0))\n        .map(|(frame_idx, frame)| {\n            let start = frame_idx.saturating_mul(hop_size);\n            let mut time_buf = frame.clone();")],
    '''use kofft::fft::*; use kofft::stft::*; fn main() { let f = ScalarFftImpl::<f32>::default(); let w = [1f32; 4]; let one = vec![Complex32::new(4.0, 0.0), Complex32::zero(), Complex32::zero(), Complex32::zero()]; let fr = vec![one, vec![Complex32::zero(); 4]]; let mut o = [0f32; 6]; inverse_parallel(&fr, &w, 2, &mut o, &f).unwrap(); assert!((o[0] - 1.0).abs() < 1e-5 && (o[2] - 0.5).abs() < 1e-5, "{:?}", o); }''', features="parallel")
bug("b89-killed-step", "C19", "a command that is ended by a signal", "xtask takes a command without an exit code for a success",
    [("xtask/src/main.rs", "    std::process::exit(status.code().unwrap_or(1));", "    std::process::exit(status.code().unwrap_or_default());")],
    None, sh='''#!/bin/bash
# run in the repository: xtask must not succeed when the command it starts is killed
. /opt/vp/env.sh 2>/dev/null
R=$PWD
W=$(mktemp -d /tmp/demo.XXXXXX); trap 'rm -rf "$W"' EXIT
CARGO_TARGET_DIR="$W/t" cargo build -q --offline --manifest-path "$R/xtask/Cargo.toml" || exit 3
mkdir "$W/bin"; printf '#!/bin/sh\\nkill -9 $$\\n' > "$W/bin/cargo"; chmod +x "$W/bin/cargo"
cd "$W"; for c in fmt build clippy; do PATH="$W/bin:$PATH" CARGO="$W/bin/cargo" timeout 60 "$W/t/debug/xtask" $c && exit 1; done
exit 0
''')
bug("b90-svg-runs", "C22", "an SVG image in which a row begins with the colour the row above ends with", "save_svg draws runs of equal colour as one rectangle, and continues a run in the next row",
    [("sanity-check/src/lib.rs", "    for (x, y, pixel) in img.enumerate_pixels() {\n        let color = format!(", "    let mut last: Option<(u32, Rgb<u16>)> = None;\n    for (x, y, pixel) in img.enumerate_pixels() {\n        // A pixel like the one before it only makes that one's rectangle longer.\n        let mut width = 1;\n        if last.is_some_and(|(_, p)| p == *pixel) {\n            continue;\n        }\n        while x + width < w && img.get_pixel(x + width, y) == pixel {\n            width += 1;\n        }\n        last = Some((x, *pixel));\n        let color = format!("),
     ("sanity-check/src/lib.rs", "            .set(\"width\", 1)", "            .set(\"width\", width)")],
    None, sh=HEAD + '''cat > "$W/src/main.rs" <<'M'
use image::{ImageBuffer, Rgb};
fn main() { let p = std::env::temp_dir().join(format!("svg{}.svg", std::process::id())); let mut i = ImageBuffer::from_pixel(3, 2, Rgb([0u16, 0, 65535])); i.put_pixel(0, 0, Rgb([65535, 0, 0])); sanity_check::save_svg(&i, &p).unwrap(); let s = std::fs::read_to_string(&p).unwrap(); std::fs::remove_file(&p).unwrap();
let mut n = 0; for r in s.split("<rect").skip(1) { let w = r.split("width=\\"").nth(1).unwrap().split('"').next().unwrap(); n += w.parse::<usize>().unwrap(); } assert_eq!(n, 6, "{s}"); }
M
crate "sanity-check = { path = \\"$R/sanity-check\\" }
image = { version = \\"0.24\\", default-features = false }"
timeout 120 "$W/t/debug/demo"
''')
bug("b91-minus-zero", "C25", "the negation of a number with a part that is zero", "complex negation subtracts from zero, which loses the sign of zero",
    [("src/num.rs", "            re: -self.re,\n            im: -self.im,", "            re: T::zero() - self.re,\n            im: T::zero() - self.im,")],
    '''use kofft::fft::*; fn main() { let n = -Complex32::new(0.0, 1.0); assert!(n.re.is_sign_negative()); assert_eq!(n.im, -1.0); }''')
bug("b92-new-map", "C27", "the colour map is changed in the middle of a recording", "set_colormap begins a new recording",
    [("web-spectrogram/src/lib.rs", "        s.borrow_mut().cmap = KColormap::parse(name);", "        let mut state = State::new();\n        state.cmap = KColormap::parse(name);\n        *s.borrow_mut() = state;")],
    None, sh=HEAD + '''cat > "$W/src/main.rs" <<'M'
use web_spectrogram::*; fn main() { let x: Vec<f32> = (0..1000).map(|i| (i % 31) as f32).collect(); reset_state(); assert!(compute_frame(&x).is_empty()); set_colormap("gray"); assert_eq!(compute_frame(&x[..24]).len(), 2048); }
M
crate "web-spectrogram = { path = \\"$R/web-spectrogram\\" }
kofft = { path = \\"$R\\" }"
timeout 120 "$W/t/debug/demo"
''')
bug("b93-panic-buffer", "C26", "the engine of a synthesis stream fails once", "push_frame takes its buffer out of the stream and loses it when the engine fails",
    [("src/stft.rs", "        self.time_buf.copy_from_slice(frame);\n        self.fft.ifft(&mut self.time_buf)?;\n", "        let mut time_buf = core::mem::take(&mut self.time_buf);\n        time_buf.copy_from_slice(frame);\n        self.fft.ifft(&mut time_buf)?;\n        self.time_buf = time_buf;\n")],
    PRE + ENGINE + '''use kofft::stft::*; fn main() { let f = F(Default::default(), Cell::new(0), 2); let mut s = IstftStream::new(4, 2, vec![1.0; 4], &f).unwrap(); let fr = probe(4); assert!(s.push_frame(&fr).is_ok()); assert!(s.push_frame(&fr).is_err()); assert!(s.push_frame(&fr).is_ok()); }''')
bug("b94-past-the-end", "C07", "a single frame that begins behind the end of the signal, into a buffer in use", "frame returns early where there is no signal left, and leaves the buffer as it was",
    [("src/stft.rs", "    if frame_out.len() != win_len {\n        return Err(FftError::MismatchedLengths);\n    }\n    for i in 0..win_len {", "    if frame_out.len() != win_len {\n        return Err(FftError::MismatchedLengths);\n    }\n    if start >= signal.len() && win_len != 0 {\n        // Silence: nothing to transform.\n        return Ok(());\n    }\n    for i in 0..win_len {")],
    '''use kofft::fft::*; use kofft::stft::*; fn main() { let f = ScalarFftImpl::<f32>::default(); let mut o = [Complex32::new(1.0, 1.0); 4]; frame(&[1.0, 2.0], &[1.0; 4], 2, &mut o, &f).unwrap(); assert!(o.iter().all(|c| c.re == 0.0 && c.im == 0.0)); }''')
bug("b95-strided-tail", "C04", "an out-of-place strided transform of one element", "a single element is copied with its neighbours",
    [("src/fft.rs", "        self.fft(&mut scratch[..n])?;\n        for i in 0..n {\n            output[i * out_stride] = scratch[i];\n        }\n        {\n            let planner = unsafe { self.planner_mut() };\n            planner.scratch = scratch;\n        }\n        Ok(())\n    }\n    fn ifft_out_of_place_strided(", "        self.fft(&mut scratch[..n])?;\n        if in_stride == out_stride && n == 1 {\n            output.copy_from_slice(input);\n        }\n        for i in 0..n {\n            output[i * out_stride] = scratch[i];\n        }\n        {\n            let planner = unsafe { self.planner_mut() };\n            planner.scratch = scratch;\n        }\n        Ok(())\n    }\n    fn ifft_out_of_place_strided(")],
    PRE + '''fn main() { let f = ScalarFftImpl::<f32>::default(); let x = probe(3); let mut o = vec![C::new(9.0, 9.0); 3]; f.fft_out_of_place_strided(&x, 3, &mut o, 3).unwrap(); assert!(o[1] == C::new(9.0, 9.0) && o[2] == C::new(9.0, 9.0)); }''')

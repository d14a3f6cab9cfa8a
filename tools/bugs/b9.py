exec(open("/verif/tools/bugs/pre.py").read())
WLIB = HEAD + '''cat > "$W/src/main.rs" <<'M'
%s
M
crate "web-spectrogram = { path = \\"$R/web-spectrogram\\" }
kofft = { path = \\"$R\\" }"
timeout 120 "$W/t/debug/demo"
'''
bug("b145-lossy-name", "C15", "two files whose names are no text and differ in undecodable bytes only", "names that are no text are recorded with replacement characters",
    [("src/media/index.rs", "        if let Some(name) = path.file_name().and_then(|s| s.to_str()) {\n            self.by_name.insert(name.to_string(), id.clone());\n        }\n        self.by_hash.insert(hash, id.clone());\n        Ok(id)\n    }\n\n    /// Identify", "        if let Some(name) = path.file_name().map(|s| s.to_string_lossy()) {\n            self.by_name.insert(name.to_string(), id.clone());\n        }\n        self.by_hash.insert(hash, id.clone());\n        Ok(id)\n    }\n\n    /// Identify"),
     ("src/media/index.rs", "        if let Some(name) = path.file_name().and_then(|s| s.to_str()) {\n            if let Some(id) = self.by_name.get(name) {", "        if let Some(name) = path.file_name().map(|s| s.to_string_lossy()) {\n            if let Some(id) = self.by_name.get(&*name) {")],
    '''use kofft::media::index::*; use std::{ffi::OsStr, os::unix::ffi::OsStrExt}; fn main() { let d = std::env::temp_dir().join(format!("lossy{}", std::process::id())); std::fs::create_dir(&d).unwrap(); let w = |n: &[u8], c: &str| { let p = d.join(OsStr::from_bytes(n)); std::fs::write(&p, c).unwrap(); p }; let (a, b) = (w(b"\\xff.wav", "one"), w(b"\\xfe.wav", "two")); let mut i = SongIndex::new(); let s = i.index_song(&a); let t = i.identify(&b); std::fs::remove_dir_all(&d).unwrap(); assert_ne!(s.unwrap(), t.unwrap()); }''')
bug("b146-first-megabytes", "C15", "two files that agree in their first two mebibytes", "the content is hashed up to two mebibytes",
    [("src/media/index.rs", "        let mut file = File::open(path)?;\n", "        // The beginning of a song tells it from others.\n        let mut file = File::open(path)?.take(2 << 20);\n")],
    '''use kofft::media::index::*; fn main() { let d = std::env::temp_dir().join(format!("long{}", std::process::id())); std::fs::create_dir(&d).unwrap(); let w = |n: &str, c: u8| { let p = d.join(n); let mut v = vec![7u8; (2 << 20) + 9]; *v.last_mut().unwrap() = c; std::fs::write(&p, v).unwrap(); p }; let (a, b) = (w("a.wav", 1), w("b.wav", 2)); let mut i = SongIndex::new(); let s = i.index_song(&a); let t = i.identify(&b); std::fs::remove_dir_all(&d).unwrap(); assert_ne!(s.unwrap(), t.unwrap()); }''')
bug("b147-many-levels", "C13", "a decomposition of 256 levels or more", "levels are counted in eight bits",
    [("src/wavelet.rs", "    for _ in 0..levels {\n        if !current.len()", "    // No signal has more than 64 useful levels.\n    for _ in 0..levels as u8 {\n        if !current.len()")],
    '''use kofft::wavelet::*; fn main() { let (_, d) = haar_forward_multi(&[1.0, 2.0, 3.0, 4.0], 257); assert_eq!(d.len(), 257); }''')
bug("b148-high-rate", "C22", "a WAV file of 96 kHz or more", "the rate is kept in 16 bits",
    [("sanity-check/src/lib.rs", "    Ok((samples, spec.sample_rate))", "    let rate = spec.sample_rate as u16;\n    Ok((samples, u32::from(rate)))")],
    None, sh=SC % '''fn main() { let s = hound::WavSpec { channels: 1, sample_rate: 96_000, bits_per_sample: 16, sample_format: hound::SampleFormat::Int }; let mut w = hound::WavWriter::create("a.wav", s).unwrap(); w.write_sample(5i16).unwrap(); w.finalize().unwrap(); assert_eq!(sanity_check::read_audio(std::path::Path::new("a.wav")).unwrap().1, 96_000); }''')
bug("b149-tab", "C19", "a KOFFT_FEATURES value whose features are separated by tabs or line breaks", "features are separated at spaces only",
    [("xtask/src/lib.rs", "    for feat in extra.split_whitespace() {", "    for feat in extra.split(' ') {")],
    None, sh=XT % '''compute_config("x", "", 1, "soa\\tsimd").features == ["soa", "simd"]''')
bug("b151-wide-bins", "C16", "a logarithmic scale of more than 65536 bins", "pixels are kept in 16 bits",
    [("src/visual/spectrogram.rs", "        (max_bin as f32 * pos / log_max).floor() as usize\n", "        let pixel = (max_bin as f32 * pos / log_max).floor();\n        usize::from(pixel as u16)\n")],
    '''fn main() { let p = kofft::visual::spectrogram::map_bin_to_pixel(99_000, 100_000); assert!(p > 99_000, "{p}"); }''')
bug("b155-threshold", "C08", "a synthesis window whose squares sum to about 1e-7", "the batch synthesis divides from 1e-6 on",
    [("src/stft.rs", "        if scratch[i] > 1e-8 {", "        if scratch[i] > 1e-6 {")],
    '''use kofft::fft::*; fn main() { let mut f = vec![vec![Complex32::new(4.0, 0.0), Complex32::zero(), Complex32::zero(), Complex32::zero()]]; let (mut o, mut s) = ([0f32; 4], [0f32; 4]); kofft::stft::istft(&mut f, &[5e-4; 4], 4, &mut o, &mut s, &ScalarFftImpl::<f32>::default()).unwrap(); assert!((o[0] / 2e3 - 1.0).abs() < 1e-3, "{:?}", o); }''')
bug("b156-flush-threshold", "C09", "a synthesis stream whose window is faint at its end", "the flush divides from 1e-4 on, the pushes from 1e-8 on",
    [("src/stft.rs", "        for i in out_start..out_end {\n            if self.norm_buf[i] > 1e-8 {\n                self.buffer[i] /= self.norm_buf[i];\n            }\n            self.norm_buf[i] = 0.0;\n        }\n        self.out_pos = out_end;", "        for i in out_start..out_end {\n            if self.norm_buf[i] > 1e-4 {\n                self.buffer[i] /= self.norm_buf[i];\n            }\n            self.norm_buf[i] = 0.0;\n        }\n        self.out_pos = out_end;")],
    '''use kofft::fft::*; use kofft::stft::*; fn main() { let f = ScalarFftImpl::<f32>::default(); let mut s = IstftStream::new(4, 2, vec![1.0, 1.0, 1.0, 5e-3], &f).unwrap(); s.push_frame(&[Complex32::new(4.0, 0.0), Complex32::zero(), Complex32::zero(), Complex32::zero()]).unwrap(); let r = s.flush().to_vec(); assert!((r[1] / 200.0 - 1.0).abs() < 1e-3, "{:?}", r); }''')
bug("b157-window-stack", "C20", "a stack-only Blackman window of more than 512 samples", "the window is made on the heap and copied",
    [("src/window.rs", "pub fn blackman_inplace_stack<const N: usize>(out: &mut [f32; N]) {\n", "pub fn blackman_inplace_stack<const N: usize>(out: &mut [f32; N]) {\n    if N > 512 {\n        // Spares the stack for long windows.\n        out.copy_from_slice(&blackman(N));\n        return;\n    }\n")],
    PRE + ALLOC + '''fn main() { let mut w = [0f32; 600]; let n = COUNT.load(O::SeqCst); kofft::window::blackman_inplace_stack(&mut w); assert_eq!(COUNT.load(O::SeqCst), n); }''')
bug("b158-keep-map", "C27", "a colour map name that is unknown, after one that is known", "an unknown name keeps the current colour map",
    [("web-spectrogram/src/lib.rs", "        s.borrow_mut().cmap = KColormap::parse(name);\n", "        let cmap = KColormap::parse(name);\n        // What is not known parses as fire.\n        if name.eq_ignore_ascii_case(\"fire\") || !matches!(cmap, KColormap::Fire) {\n            s.borrow_mut().cmap = cmap;\n        }\n")],
    None, sh=WLIB % '''fn main() { let x: Vec<f32> = (0..1024).map(|i| (i % 7) as f32).collect(); web_spectrogram::set_colormap("gray"); web_spectrogram::set_colormap("no such map"); let a = web_spectrogram::compute_frame(&x); web_spectrogram::reset_state(); web_spectrogram::set_colormap("no such map"); let b = web_spectrogram::compute_frame(&x); assert_eq!(a, b); }''')
bug("b159-mel-clip", "C17", "more spectrum bins than half the sample rate in hertz", "the filters' bins are limited to the sample rate",
    [("src/cepstrum.rs", "        bins[i] = floorf(f * (n_fft as f32 + 1.0) / sample_rate) as usize;\n", "        bins[i] = (floorf(f * (n_fft as f32 + 1.0) / sample_rate) as usize).min(sample_rate as usize / 4);\n")],
    '''fn main() { let m = vec![1f32; 100]; let e = kofft::cepstrum::mel_filterbank(&m, 100.0, 2); assert!(e[1] > 14.0, "{:?}", e); }''')
bug("b160-odd-table", "C24", "stage twiddles of an odd length", "odd lengths get one factor more",
    [("src/fft.rs", "            let half = n / 2;\n            let two_pi", "            let half = if n > 1 { n.div_ceil(2) } else { 0 };\n            let two_pi")],
    '''fn main() { assert_eq!(kofft::fft::FftPlanner::<f32>::new().get_twiddles(7).len(), 3); }''')

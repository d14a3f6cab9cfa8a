exec(open("/verif/tools/bugs/pre.py").read())
bug("b96-strategy-memo", "C24", "an automatic strategy at one length, then at the odd length above it", "plan_strategy remembers one answer for two lengths",
    [("src/fft.rs", "    split_scratch_re: Vec<T>,\n    split_scratch_im: Vec<T>,\n}\n", "    split_scratch_re: Vec<T>,\n    split_scratch_im: Vec<T>,\n    chosen: HashMap<usize, FftStrategy>,\n}\n"),
     ("src/fft.rs", "            split_scratch_im: Vec::new(),\n        }", "            split_scratch_im: Vec::new(),\n            chosen: HashMap::new(),\n        }"),
     ("src/fft.rs", "        if n.is_power_of_two() && n > 1 {\n            FftStrategy::SplitRadix\n        } else {\n            FftStrategy::Auto\n        }", "        *self.chosen.entry(n >> 1).or_insert_with(|| {\n            if n.is_power_of_two() && n > 1 {\n                FftStrategy::SplitRadix\n            } else {\n                FftStrategy::Auto\n            }\n        })")],
    '''use kofft::fft::*; fn main() { let mut p = FftPlanner::<f64>::new(); assert_eq!(p.plan_strategy(8), FftStrategy::SplitRadix); assert_eq!(p.plan_strategy(9), FftStrategy::Auto); }''')
bug("b97-planner-scratch", "C26", "an engine panics in a real transform of a planner that is used again", "the planner remembers the size of its scratch buffer apart from the buffer",
    [("src/rfft.rs", "    /// Reusable scratch buffer.\n    scratch: Vec<Complex<T>>,\n}", "    /// Reusable scratch buffer.\n    scratch: Vec<Complex<T>>,\n    /// Largest transform served so far.\n    served: usize,\n}"),
     ("src/rfft.rs", "            scratch: Vec::new(),\n        }", "            scratch: Vec::new(),\n            served: 0,\n        }"),
     ("src/rfft.rs", "        let scratch_len = input.len() / 2;\n        let mut scratch = core::mem::take(&mut self.scratch);\n        if scratch.len() < scratch_len {\n            scratch.resize(scratch_len, Complex::zero());\n        }", "        let scratch_len = input.len() / 2;\n        let mut scratch = core::mem::take(&mut self.scratch);\n        if self.served < scratch_len {\n            scratch.resize(scratch_len, Complex::zero());\n            self.served = scratch_len;\n        }"),
     ("src/rfft.rs", "        let scratch_len = output.len() / 2;\n        let mut scratch = core::mem::take(&mut self.scratch);\n        if scratch.len() < scratch_len {\n            scratch.resize(scratch_len, Complex::zero());\n        }", "        let scratch_len = output.len() / 2;\n        let mut scratch = core::mem::take(&mut self.scratch);\n        if self.served < scratch_len {\n            scratch.resize(scratch_len, Complex::zero());\n            self.served = scratch_len;\n        }")],
    PRE + ENGINE.replace("Err(FftError::InvalidValue)", "panic!()") + '''use kofft::rfft::*; fn main() { std::panic::set_hook(Box::new(|_| ())); let f = F(Default::default(), Cell::new(0), 1); let mut p = RfftPlanner::<f32>::new(); let mut x = [1f32; 8]; let mut o = vec![C::zero(); 5]; let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| p.rfft(&f, &mut x, &mut o))); assert!(r.is_err()); p.rfft(&f, &mut [1f32; 8], &mut o).unwrap(); assert!((o[0].re - 8.0).abs() < 1e-5); }''')
bug("b98-reciprocal", "C16", "a loudest magnitude whose reciprocal overflows", "db_scale multiplies by the reciprocal of the maximum",
    [("src/visual/spectrogram.rs", "    let db = 20.0 * (mag / max_mag).max(1e-10).log10();", "    let scale = 1.0 / max_mag;\n    let db = 20.0 * (mag * scale).max(1e-10).log10();")],
    '''fn main() { let m = f32::MIN_POSITIVE / 1024.0; let d = kofft::visual::spectrogram::db_scale(m / 2.0, m, 80.0); assert!(d < 0.95 && d > 0.9, "{d}"); }''')
bug("b99-bessel-terms", "C14", "a Kaiser window with a beta above 35", "the Bessel series ends after 25 terms",
    [("src/window.rs", "    while term > sum * 1e-12 {", "    while term > sum * 1e-12 && n < 26.0 {")],
    '''fn i0(x: f64) -> f64 { let (mut s, mut t) = (1.0, 1.0); for n in 1..400 { t *= x * x / 4.0 / (n * n) as f64; s += t; } s } fn main() { for b in [5.0f64, 20.0, 60.0, 100.0] { let w = kofft::window::kaiser(9, b as f32); for (i, v) in w.iter().enumerate() { let r = (i as f64 - 4.0) / 4.0; let e = i0(b * (1.0 - r * r).sqrt()) / i0(b); assert!((e - *v as f64).abs() < 1e-3, "{b} {i} {v} {e}"); } } }''')
bug("b100-first-copy", "C15", "two songs of the same content are indexed", "index_song keeps the song recorded first under a content",
    [("src/media/index.rs", "        self.by_hash.insert(hash, id.clone());\n        Ok(id)\n    }\n\n    /// Identify a song, preferring", "        self.by_hash.entry(hash).or_insert_with(|| id.clone());\n        Ok(id)\n    }\n\n    /// Identify a song, preferring")],
    '''use kofft::media::index::*; fn main() { let d = std::env::temp_dir().join(format!("same{}", std::process::id())); std::fs::create_dir(&d).unwrap(); let w = |n: &str| { let p = d.join(n); std::fs::write(&p, "one").unwrap(); p }; let (a, b, c) = (w("a"), w("b"), w("c")); let mut i = SongIndex::new(); let _ = i.index_song(&a); let s = i.index_song(&b); let t = i.identify(&c); std::fs::remove_dir_all(&d).unwrap(); assert_eq!(s.unwrap(), t.unwrap()); }''')
bug("b101-reduced-angle", "C25", "the sine of an angle of many turns", "the sine of f32 reduces its angle by multiples of the rounded 2 pi",
    [("src/num.rs", "            f32::sin(self)\n", "            f32::sin(self % (2.0 * PI32))\n")],
    '''use kofft::num::Float; fn main() { for x in [1f32, 100.0, 1e4, 1e6] { let s = <f32 as Float>::sin(x); assert!((s as f64 - (x as f64).sin()).abs() < 1e-5, "{x} {s}"); } }''')
bug("b102-clipped", "C22", "a floating-point WAV file louder than full scale", "floating-point samples are clipped to full scale",
    [("sanity-check/src/lib.rs", "        SampleFormat::Float => reader.samples::<f32>().collect::<Result<_, _>>()?,", "        SampleFormat::Float => reader\n            .samples::<f32>()\n            .map(|s| s.map(|v| v.clamp(-1.0, 1.0)))\n            .collect::<Result<_, _>>()?,")],
    None, sh=SC % '''fn main() { let s = hound::WavSpec { channels: 1, sample_rate: 8000, bits_per_sample: 32, sample_format: hound::SampleFormat::Float }; let mut w = hound::WavWriter::create("a.wav", s).unwrap(); for v in [0.5f32, 1.5, -3.0] { w.write_sample(v).unwrap(); } w.finalize().unwrap(); let (x, _) = sanity_check::read_audio(std::path::Path::new("a.wav")).unwrap(); assert_eq!(x, [0.5, 1.5, -3.0]); }''')
bug("b103-tabs", "C19", "features in KOFFT_FEATURES that are separated by something else than a blank", "the features are split at blanks only",
    [("xtask/src/lib.rs", "    for feat in extra.split_whitespace() {", "    for feat in extra.trim().split(' ') {")],
    None, sh=XT % '''compute_config("riscv64", "", 1, "simd\\tslow\\nsoa").features == ["simd", "slow", "soa"]''')
bug("b105-overflow", "C10", "a per-core work setting near the largest number, and several threads", "the threshold is multiplied without saturation",
    [("src/fft.rs", "            per_core_min.saturating_mul(env_parallel_fft_threads())", "            per_core_min * env_parallel_fft_threads()")],
    '''fn main() { std::env::set_var("KOFFT_PAR_FFT_PER_CORE_WORK", (usize::MAX / 2 + 2).to_string()); std::env::set_var("KOFFT_PAR_FFT_THREADS", "2"); let mut x = vec![kofft::Complex32::new(1.0, 0.0); 4096]; kofft::fft::fft_parallel(&mut x).unwrap(); assert!((x[0].re - 4096.0).abs() < 1.0); }''', features="parallel")
bug("b106-wide-load", "C23", "a real transform with the x86_64 feature, whose scratch buffer ends at unreadable memory", "the kernel loads two values at once, at the last one too",
    [("src/rfft.rs", "        let a = scratch[k];\n        let b = Complex32::new(scratch[m - k].re, -scratch[m - k].im);\n        let sum_re = a.re + b.re;\n        let sum_im = a.im + b.im;\n        let diff_re = a.re - b.re;\n        let diff_im = a.im - b.im;\n        let w = twiddles[k];\n        let v_re = _mm_set1_ps(diff_re);", "        let mut pair = [0.0f32; 4];\n        _mm_storeu_ps(pair.as_mut_ptr(), _mm_loadu_ps(scratch.as_ptr().add(k).cast()));\n        let a = Complex32::new(pair[0], pair[1]);\n        let b = Complex32::new(scratch[m - k].re, -scratch[m - k].im);\n        let sum_re = a.re + b.re;\n        let sum_im = a.im + b.im;\n        let diff_re = a.re - b.re;\n        let diff_im = a.im - b.im;\n        let w = twiddles[k];\n        let v_re = _mm_set1_ps(diff_re);")],
    '''use kofft::fft::*; use kofft::rfft::*; fn main() { unsafe { let p = libc::mmap(std::ptr::null_mut(), 8192, 3, 0x22, -1, 0) as *mut u8; libc::mprotect(p.add(4096).cast(), 4096, 0); for m in 2..9usize { let s = std::slice::from_raw_parts_mut(p.add(4096 - 8 * m) as *mut Complex32, m); let mut x: Vec<f32> = (0..2 * m).map(|i| i as f32).collect(); let mut o = vec![Complex32::zero(); m + 1]; RfftPlanner::<f32>::new().rfft_with_scratch(&ScalarFftImpl::<f32>::default(), &mut x, &mut o, s).unwrap(); assert!((o[0].re - (m * (2 * m - 1)) as f32).abs() < 0.1); } } }''', features="x86_64", deps='libc = "0.2"')
bug("b107-mirror", "C11", "a planned DCT-II of a mirror symmetric input of odd length", "half of a symmetric input is enough, but the middle sample has no twin",
    [("src/dct.rs", "        let n = input.len();\n        if output.len() != n || cos.len() != n {\n            return Err(FftError::MismatchedLengths);\n        }\n        let m = 2 * n;", "        let n = input.len();\n        if output.len() != n || cos.len() != n {\n            return Err(FftError::MismatchedLengths);\n        }\n        if n > 8 && (0..n / 2).all(|i| input[i] == input[n - 1 - i]) {\n            // Symmetric: odd coefficients vanish, and the halves contribute alike.\n            for (k, out) in output.iter_mut().enumerate() {\n                let half = input.iter().take(n.div_ceil(2)).enumerate();\n                let sum: f32 = half\n                    .map(|(i, &x)| x * (PI * (i as f32 + 0.5) * k as f32 / n as f32).cos())\n                    .sum();\n                *out = if k % 2 == 0 { 2.0 * sum } else { 0.0 };\n            }\n            return Ok(());\n        }\n        let m = 2 * n;")],
    '''fn main() { let n = 9; let mut x: Vec<f32> = (0..n).map(|i: i32| (i - 4).abs() as f32 + 1.0).collect(); let e = kofft::dct::dct2(&x); let mut o = vec![0f32; 9]; let mut p = kofft::dct::DctPlanner::new(); p.plan_dct2(9)(&mut x, &mut o).unwrap(); for (a, b) in e.iter().zip(&o) { assert!((a - b).abs() < 1e-3, "{:?} {:?}", e, o); } }''')
bug("b108-no-detail", "C13", "a reconstruction from details that are all zero, with a wavelet other than Haar's", "without detail the inverse repeats every sample",
    [("src/wavelet.rs", "        current.truncate(d.len());\n        current = inverse(&current, d);", "        current.truncate(d.len());\n        current = if d.iter().all(|&x| x == 0.0) && current.len() == d.len() {\n            // Nothing to add to the average.\n            current.iter().flat_map(|&x| [x, x]).collect()\n        } else {\n            inverse(&current, d)\n        };")],
    '''use kofft::wavelet::*; fn main() { let a = [1f32, 4.0, 2.0, 8.0]; let z = vec![vec![0f32; 4]]; let e = db2_inverse(&a, &z[0]); let g = multi_level_inverse(&a, &z, db2_inverse); for (x, y) in e.iter().zip(&g) { assert!((x - y).abs() < 1e-4, "{:?} {:?}", e, g); } }''')
bug("b109-journal", "C20", "the same song is indexed again and again", "the song index keeps a journal of its songs",
    [("src/media/index.rs", "    by_hash: HashMap<[u8; 32], SongId>,\n}", "    by_hash: HashMap<[u8; 32], SongId>,\n    journal: std::vec::Vec<SongId>,\n}"),
     ("src/media/index.rs", "        self.by_hash.insert(hash, id.clone());\n        Ok(id)\n    }\n\n    /// Identify a song, preferring", "        self.by_hash.insert(hash, id.clone());\n        self.journal.push(id.clone());\n        Ok(id)\n    }\n\n    /// Identify a song, preferring")],
    ALLOC + '''fn main() { let p = std::env::temp_dir().join(format!("again{}", std::process::id())); std::fs::write(&p, "one").unwrap(); let mut i = kofft::media::index::SongIndex::new(); for _ in 0..8 { i.index_song(&p).unwrap(); } let a = LIVE.load(O::SeqCst); for _ in 0..64 { i.index_song(&p).unwrap(); } let b = LIVE.load(O::SeqCst); std::fs::remove_file(&p).unwrap(); assert!(b <= a, "{a} {b}"); }''')
bug("b110-narrow-filters", "C17", "so many mel filters that the lowest have no bin", "the filterbank ends at the first filter without a bin",
    [("src/cepstrum.rs", "        if bins[m] == bins[m - 1] || bins[m + 1] == bins[m] {\n            continue;\n        }", "        if bins[m] == bins[m - 1] || bins[m + 1] == bins[m] {\n            // Too narrow for this resolution.\n            if bins[m + 1] == bins[m - 1] && m > 2 {\n                break;\n            }\n            continue;\n        }")],
    '''fn main() { let e = kofft::cepstrum::mel_filterbank(&vec![1.0; 64], 16000.0, 30); assert!(e[29] > 0.0, "{:?}", e); }''')
bug("b104-query", "C27", "a request with a query for a file that is cached", "the offline worker ignores queries",
    [("web-spectrogram/sw.js", "    caches.match(event.request).then(", "    caches.match(event.request, { ignoreSearch: true }).then(")],
    None, sh='''#!/bin/bash
# run in the repository: the worker must answer a query from the network
cat > /tmp/sw.$$.js <<'M'
const fs = require('fs'); const h = {}; let told;
globalThis.self = { addEventListener: (n, f) => { h[n] = f; } };
const store = ['http://x/index.html'];
globalThis.caches = { open: async () => ({ addAll: async () => {} }), match: async (r, o) => { const u = typeof r === 'string' ? r : r.url; const cut = o && o.ignoreSearch ? u.split('?')[0] : u; return store.includes(cut) ? 'cached' : undefined; } };
globalThis.fetch = async () => 'network'; console.log = () => {};
eval(fs.readFileSync('web-spectrogram/sw.js', 'utf8'));
(async () => { for (const [u, e] of [['http://x/index.html', 'cached'], ['http://x/index.html?a=1', 'network'], ['http://x/b', 'network']]) { let p; h.fetch({ request: { url: u, method: 'GET' }, respondWith: q => { p = q; } }); if ((await p) !== e) process.exit(1); } })();
M
timeout 60 node /tmp/sw.$$.js; r=$?; rm -f /tmp/sw.$$.js; exit $r
''')

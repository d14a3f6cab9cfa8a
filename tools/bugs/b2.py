bug("b07-dct-divisor-table", "C11", "a planner that planned a longer, not dividing length before",
    "DctPlanner derives a short cosine table from a longer cached one even if the lengths do not divide",
    [("src/dct.rs", "            let mut table = Vec::with_capacity(n);\n            for k in 0..n {\n                table.push((PI * k as f32 / (2.0 * n as f32)).cos());\n            }",
      "            let mut table = Vec::with_capacity(n);\n            let longer = self.cache.iter().find(|(&len, _)| n > 0 && len >= 2 * n);\n            if let Some((&len, cached)) = longer {\n                // Every (len / n)-th entry of the longer table is the entry wanted here.\n                let step = len / n;\n                table.extend((0..n).map(|k| cached[k * step]));\n            } else {\n                for k in 0..n {\n                    table.push((PI * k as f32 / (2.0 * n as f32)).cos());\n                }\n            }")],
    '''use kofft::dct::*; fn main() { let mut p = DctPlanner::new(); for n in [20usize, 8] { let x: Vec<f32> = (0..n).map(|i| (i * i % 7) as f32).collect(); let mut a = x.clone(); let mut o = vec![0.0; n]; p.plan_dct2(n)(&mut a, &mut o).unwrap(); for (p, q) in o.iter().zip(dct2(&x)) { assert!((p - q).abs() < 1e-2, "{n}"); } } }''')
bug("b08-dct4-u16", "C11", "a DCT-IV longer than 128", "the angle index of dct4 is kept in 16 bits and wraps",
    [("src/dct.rs", "    let factor = PI / n as f32;\n    for (k, out) in output.iter_mut().enumerate() {\n        let mut sum = 0.0;\n        for (i, &x) in input.iter().enumerate() {\n            sum += x * (factor * (i as f32 + 0.5) * (k as f32 + 0.5)).cos();",
      "    let factor = PI / (4.0 * n as f32);\n    for (k, out) in output.iter_mut().enumerate() {\n        let mut sum = 0.0;\n        for (i, &x) in input.iter().enumerate() {\n            let turn = (2 * i as u16 + 1).wrapping_mul(2 * k as u16 + 1);\n            sum += x * (factor * f32::from(turn)).cos();")],
    '''use kofft::dct::*; fn main() { for n in [100usize, 200] { let mut x = vec![0f32; n]; x[n - 1] = 1.0; let y = dct4(&x); for k in 0..n { let e = (std::f64::consts::PI / n as f64 * (n as f64 - 0.5) * (k as f64 + 0.5)).cos(); assert!((y[k] as f64 - e).abs() < 1e-2, "{n} {k}"); } } }''')
bug("b09-dst3-from-double", "C12", "a DST-III table asked for after the table of twice its length",
    "plan_dst3 takes the odd instead of the even entries of the table of length 2n",
    [("src/dst.rs", "            let vec = Self::build_table_offset(n, 0.0);", "            let vec = match self.cache3.get(&(2 * n)) {\n                // sin(pi i / n) is every other entry of the double length table.\n                Some(double) if n > 1 => double.iter().copied().skip(1).step_by(2).collect(),\n                _ => Self::build_table_offset(n, 0.0),\n            };")],
    '''use kofft::dst::*; fn main() { let mut p = DstPlanner::<f32>::new(); p.plan_dst3(10); let t = p.plan_dst3(5).to_vec(); assert_eq!(t.len(), 5); assert!(t[0].abs() < 1e-6); }''')
bug("b10-dht-mod", "C12", "a Hartley transform of a length that is no power of two above 64",
    "dht reduces the index product with a mask instead of the length",
    [("src/hartley.rs", '#[cfg(feature = "std")]\npub fn dht(input: &[f32]) -> Vec<f32> {\n    let n = input.len();\n    let mut output = vec![0.0; n];\n    let factor = 2.0 * core::f32::consts::PI / n as f32;\n    for (k, out) in output.iter_mut().enumerate() {\n        let mut sum = 0.0;\n        for (i, &x) in input.iter().enumerate() {\n            let angle = factor * (i * k) as f32;',
      '#[cfg(feature = "std")]\npub fn dht(input: &[f32]) -> Vec<f32> {\n    let n = input.len();\n    let mut output = vec![0.0; n];\n    let factor = 2.0 * core::f32::consts::PI / n as f32;\n    for (k, out) in output.iter_mut().enumerate() {\n        let mut sum = 0.0;\n        for (i, &x) in input.iter().enumerate() {\n            // Keep long transforms accurate: whole turns do not matter.\n            let turn = if n > 64 { (i * k) & (n.next_power_of_two() - 1) } else { i * k };\n            let angle = factor * turn as f32;')],
    '''use kofft::hartley::*; fn main() { for n in [60usize, 64, 100] { let x: Vec<f32> = (0..n).map(|i| (i % 5) as f32).collect(); let y = dht(&dht(&x)); for (a, b) in x.iter().zip(&y) { assert!((a - b / n as f32).abs() < 1e-2, "{n}"); } } }''')
bug("b11-pad-first-level", "C13", "a multi-level decomposition whose second level has an odd length",
    "multi_level_forward repeats the last sample only before the first level",
    [("src/wavelet.rs", "    for _ in 0..levels {\n        if !current.len().is_multiple_of(2) {", "    for level in 0..levels {\n        if level == 0 && !current.len().is_multiple_of(2) {")],
    '''use kofft::wavelet::*; fn main() { let x: Vec<f32> = (0..6).map(|i| (i * i) as f32).collect(); let (a, d) = multi_level_forward(&x, 2, haar_forward); assert_eq!(a.len(), 2); assert_eq!(d[1].len(), 2); }''')
bug("b12-coif-fold", "C13", "an inverse Coiflet transform of a signal shorter than its filter",
    "the folding of indices past the end in the db4 synthesis wraps around instead of reflecting a second time",
    [("src/wavelet.rs", "pub fn db4_inverse(approx: &[f32], detail: &[f32]) -> Vec<f32> {\n    let n = approx.len();\n    let len = n * 2;\n    let mut output = vec![0.0; len];\n    let g = [\n        -0.010597401785069032,\n        0.0328830116668852,\n        0.030841381835560764,\n        -0.18703481171909309,\n        -0.027983769416859854,\n        0.6308807679298589,\n        0.7148465705529157,\n        0.2303778133088965,\n    ];\n    let h = [\n        -0.2303778133088965,\n        0.7148465705529157,\n        -0.6308807679298589,\n        -0.027983769416859854,\n        0.18703481171909309,\n        0.030841381835560764,\n        -0.0328830116668852,\n        -0.010597401785069032,\n    ];\n    let reflect = |mut idx: isize| -> usize {\n        let n = len as isize;\n        while idx < 0 || idx >= n {\n            if idx < 0 {\n                idx = -idx;\n            } else {\n                idx = 2 * (n - 1) - idx;\n            }\n        }",
      "pub fn db4_inverse(approx: &[f32], detail: &[f32]) -> Vec<f32> {\n    let n = approx.len();\n    let len = n * 2;\n    let mut output = vec![0.0; len];\n    let g = [\n        -0.010597401785069032,\n        0.0328830116668852,\n        0.030841381835560764,\n        -0.18703481171909309,\n        -0.027983769416859854,\n        0.6308807679298589,\n        0.7148465705529157,\n        0.2303778133088965,\n    ];\n    let h = [\n        -0.2303778133088965,\n        0.7148465705529157,\n        -0.6308807679298589,\n        -0.027983769416859854,\n        0.18703481171909309,\n        0.030841381835560764,\n        -0.0328830116668852,\n        -0.010597401785069032,\n    ];\n    let reflect = |mut idx: isize| -> usize {\n        let n = len as isize;\n        if idx >= n {\n            idx = (2 * (n - 1) - idx).rem_euclid(n);\n        }")],
    '''use kofft::wavelet::*; fn main() { let o = db4_inverse(&[1.0, 2.0], &[0.5, -1.0]); let g = [-0.010597401785069032f32, 0.0328830116668852, 0.030841381835560764, -0.18703481171909309, -0.027983769416859854, 0.6308807679298589, 0.7148465705529157, 0.2303778133088965]; let h: Vec<f32> = (0..8).map(|k| if k % 2 == 0 { -g[7 - k] } else { g[7 - k] }).collect(); let mut e = [0f32; 4]; for i in 0..2usize { for k in 0..8 { let mut x = (2 * i + k) as isize; while x < 0 || x > 3 { x = if x < 0 { -x } else { 6 - x }; } e[x as usize] += g[k] * [1.0, 2.0][i] + h[k] * [0.5f32, -1.0][i]; } } for (a, b) in o.iter().zip(&e) { assert!((a - b).abs() < 1e-4, "{o:?} {e:?}"); } }''')
bug("b13-kaiser-even", "C14", "a Kaiser window of even length", "the centre of an even Kaiser window is half a sample off",
    [("src/window.rs", '#[cfg(feature = "std")]\npub fn kaiser(len: usize, beta: f32) -> alloc::vec::Vec<f32> {\n    if len <= 1 {\n        return alloc::vec![1.0; len];\n    }\n    let denom = bessel0(beta);\n    let m = (len - 1) as f32 / 2.0;', '#[cfg(feature = "std")]\npub fn kaiser(len: usize, beta: f32) -> alloc::vec::Vec<f32> {\n    if len <= 1 {\n        return alloc::vec![1.0; len];\n    }\n    let denom = bessel0(beta);\n    let m = (len / 2) as f32;')],
    '''use kofft::window::*; fn main() { for n in [7usize, 8] { let w = kaiser(n, 5.0); for i in 0..n { assert!((w[i] - w[n - 1 - i]).abs() < 1e-5, "{n}"); } } }''')
bug("b14-hann-table", "C14", "a Hann window of an odd length above 32", "hann mirrors its first half around the wrong sample for odd lengths",
    [("src/window.rs", "    (0..len)\n        .map(|i| 0.5 - 0.5 * (2.0 * PI * i as f32 / len as f32).cos())\n        .collect()", "    (0..len)\n        .map(|i| if len > 32 && i > len.div_ceil(2) { len - i - len % 2 } else { i })\n        .map(|i| 0.5 - 0.5 * (2.0 * PI * i as f32 / len as f32).cos())\n        .collect()")],
    '''use kofft::window::*; fn main() { for n in [31usize, 64, 65] { let w = hann(n); for i in 0..n { let e = 0.5 - 0.5 * (2.0 * std::f64::consts::PI * i as f64 / n as f64).cos(); assert!((w[i] as f64 - e).abs() < 1e-5, "{n}"); } } }''')
bug("b15-identify-names", "C15", "a file whose name is new but whose content is known, identified twice after the content changed",
    "identify remembers the alias name of a known content, so the name wins after the file changed",
    [("src/media/index.rs", "        if let Some(id) = self.by_hash.get(&hash) {\n            return Ok(id.clone());\n        }", "        if let Some(id) = self.by_hash.get(&hash).cloned() {\n            if let Some(name) = path.file_name().and_then(|s| s.to_str()) {\n                self.by_name.insert(name.to_string(), id.clone());\n            }\n            return Ok(id);\n        }")],
    '''use kofft::media::index::*; use std::fs; fn main() { let d = std::env::temp_dir().join(format!("kofft-demo-{}", std::process::id())); fs::create_dir_all(&d).unwrap(); let (a, b) = (d.join("a"), d.join("b")); fs::write(&a, "x").unwrap(); fs::write(&b, "x").unwrap(); let mut i = SongIndex::new(); let ia = i.index_song(&a).unwrap(); let r1 = i.identify(&b).unwrap(); fs::write(&b, "y").unwrap(); let r2 = i.identify(&b).unwrap(); fs::remove_dir_all(&d).unwrap(); assert_eq!(r1, ia); assert_ne!(r2, ia); }''')
bug("b16-hash-prefix", "C15", "two files that agree in the first 64 KiB", "the content hash stops after eight buffers",
    [("src/media/index.rs", "        loop {\n            let n = file.read(&mut buf)?;", "        for _ in 0..8 {\n            let n = file.read(&mut buf)?;")],
    '''use kofft::media::index::*; use std::fs; fn main() { let d = std::env::temp_dir().join(format!("kofft-demo-{}", std::process::id())); fs::create_dir_all(&d).unwrap(); let (a, b) = (d.join("a"), d.join("b")); let mut v = vec![7u8; 70000]; fs::write(&a, &v).unwrap(); v[69999] = 1; fs::write(&b, &v).unwrap(); let mut i = SongIndex::new(); let ia = i.index_song(&a).unwrap(); let r1 = i.identify(&b).unwrap(); fs::remove_dir_all(&d).unwrap(); assert_ne!(r1, ia); }''')
bug("b17-rainbow-stop", "C16", "a rainbow value between 0.9 and 1", "the search for the colour stop ends one stop early",
    [("src/visual/spectrogram.rs", "    while i + 1 < STOPS.len() && t > STOPS[i + 1].0 {", "    while i + 3 < STOPS.len() && t > STOPS[i + 1].0 {")],
    '''use kofft::visual::spectrogram::*; fn main() { assert_eq!(map_color_u8(0.8999, Colormap::Rainbow)[2], 0); let c = map_color_u8(0.95, Colormap::Rainbow); assert!(c[0] == 255 && (120..=135).contains(&c[1]) && (120..=135).contains(&c[2]), "{c:?}"); }''')
bug("b18-logbins-count", "C16", "a pixel that collects more than 255 bins", "the bins of a pixel are counted in eight bits",
    [("src/visual/spectrogram.rs", "    let mut counts = vec![0u32; max_bin + 1];", "    let mut counts = vec![0u8; max_bin + 1];"), ("src/visual/spectrogram.rs", "        counts[y] += 1;", "        counts[y] = counts[y].wrapping_add(1);")],
    '''use kofft::visual::spectrogram::*; fn main() { for n in [100usize, 300] { let v = vec![1.0f32; n]; let o = log_scale_bins(&v, 0); assert!((o[0] - 1.0).abs() < 1e-3, "{n} {o:?}"); } }''')
bug("b19-goertzel-short", "C17", "a target above half the sampling rate", "goertzel folds the bin and clamps it to the Nyquist bin",
    [("src/goertzel.rs", '#[cfg(feature = "std")]\npub fn goertzel_f32(input: &[f32], sample_rate: f32, target_freq: f32) -> Result<f32, FftError> {\n    if input.is_empty() {\n        return Err(FftError::EmptyInput);\n    }\n    if sample_rate <= 0.0 {\n        return Err(FftError::InvalidValue);\n    }\n    let n = input.len() as f32;\n    let k = floorf(target_freq * n / sample_rate);', '#[cfg(feature = "std")]\npub fn goertzel_f32(input: &[f32], sample_rate: f32, target_freq: f32) -> Result<f32, FftError> {\n    if input.is_empty() {\n        return Err(FftError::EmptyInput);\n    }\n    if sample_rate <= 0.0 {\n        return Err(FftError::InvalidValue);\n    }\n    let n = input.len() as f32;\n    // Bins above the Nyquist frequency carry nothing new for a real signal.\n    let k = floorf(target_freq * n / sample_rate).min(floorf(n / 2.0));')],
    '''use kofft::goertzel::*; fn main() { let x = [1.0f32, 2.0, -1.0, 0.5, 3.0, 0.0, 1.0, 1.5]; let a = goertzel_f32(&x, 8.0, 3.0).unwrap(); let b = goertzel_f32(&x, 8.0, 5.0).unwrap(); assert!((a - b).abs() < 1e-3); }''')
bug("b20-mel-narrow", "C17", "a mel filter so narrow that its rising side is empty", "a filter is skipped only if its falling side is empty",
    [("src/cepstrum.rs", "        if bins[m] == bins[m - 1] || bins[m + 1] == bins[m] {", "        if bins[m + 1] == bins[m] {")],
    '''use kofft::cepstrum::*; fn main() { let mags = vec![1.0f32; 32]; let sr = 16000.0f32; for nf in [4usize, 12] { let e = mel_filterbank(&mags, sr, nf); let mm = 2595.0 * (1.0 + sr / 2.0 / 700.0).log10(); let b: Vec<usize> = (0..nf + 2).map(|i| (700.0 * (10f32.powf(mm * i as f32 / (nf + 1) as f32 / 2595.0) - 1.0) * 33.0 / sr).floor() as usize).collect(); let mut narrow = 0; for m in 1..=nf { if b[m] == b[m - 1] && b[m + 1] > b[m] { narrow += 1; assert_eq!(e[m - 1], 0.0, "{nf} {m}"); } } println!("{nf} {narrow}"); } }''')
bug("b21-hilbert-two", "C17", "an analytic signal of length two", "the analytic signal doubles the Nyquist bin if it is the only other bin",
    [("src/hilbert.rs", "        for f in freq.iter_mut().take(n / 2).skip(1) {", "        for f in freq.iter_mut().take((n / 2).max(2)).skip(1) {")],
    '''use kofft::hilbert::*; fn main() { for x in [vec![1.0f32, 2.0, 3.0, -1.0], vec![1.0, 3.0]] { let a = hilbert_analytic(&x).unwrap(); for (p, q) in a.iter().zip(&x) { assert!((p.re - q).abs() < 1e-4); } } }''')
bug("b22-fft3d-plane", "C21", "a 3-D array whose rows and columns differ and whose depth is above one", "the row pass of fft3d steps over planes by rows*rows when the plane is wide",
    [("src/ndfft.rs", "    for d in 0..depth {\n        for c in 0..cols {\n            let start = d * rows * cols + c;", "    for d in 0..depth {\n        for c in 0..cols {\n            let start = d * rows * cols.min(2 * rows) + c;")],
    '''use kofft::ndfft::*; use kofft::fft::*; use kofft::Complex32 as C; fn main() { let f = ScalarFftImpl::<f32>::default(); for (d, r, c) in [(2usize, 3usize, 4usize), (2, 2, 5)] { let n = d * r * c; let mut x: Vec<C> = (0..n).map(|i| C::new(0.0, if i == n - 1 { 1.0 } else { 0.0 })).collect(); let (mut a, mut b, mut e) = (vec![C::zero(); d], vec![C::zero(); r], vec![C::zero(); c]); fft3d_inplace(&mut x, d, r, c, &f, &mut Fft3dScratch { tube: &mut a, row: &mut b, col: &mut e }).unwrap(); for (k, v) in x.iter().enumerate() { let (kd, kr, kc) = (k / (r * c), k / c % r, k % c); let t = 2.0 * std::f64::consts::PI * (kd as f64 / d as f64 + kr as f64 / r as f64 + kc as f64 / c as f64); assert!((v.re as f64 + t.sin()).abs() < 1e-3 && (v.im as f64 - t.cos()).abs() < 1e-3, "{d} {r} {c} {k} {v:?}"); } } }''')
bug("b23-fft2d-wide", "C21", "a 2-D array with more than 32 columns in blocks", "the column pass of fft2d handles blocks of 16 columns and forgets the rest",
    [("src/ndfft.rs", "    for c in 0..cols {\n        fft.fft_strided(&mut data[c..], cols, scratch_col)?;\n    }", "    let blocked = if cols > 32 { cols - cols % 16 } else { cols };\n    for c in 0..blocked {\n        fft.fft_strided(&mut data[c..], cols, scratch_col)?;\n    }")],
    '''use kofft::ndfft::*; use kofft::fft::*; use kofft::Complex32 as C; fn main() { let f = ScalarFftImpl::<f32>::default(); for (r, c) in [(2usize, 20usize), (3, 32), (2, 37)] { let n = r * c; let mut x: Vec<C> = (0..n).map(|i| C::new(0.0, if i == n - 1 { 1.0 } else { 0.0 })).collect(); let mut s = vec![C::zero(); r]; fft2d_inplace(&mut x, r, c, &f, &mut s).unwrap(); for v in &x { assert!((v.re * v.re + v.im * v.im - 1.0).abs() < 1e-3, "{r} {c}"); } } }''')

exec(open("/verif/tools/bugs/pre.py").read())
FIFO = HEAD + r'''cat > "$W/src/main.rs" <<'M'
use std::path::Path;
fn main() { let mut i = kofft::media::index::SongIndex::new(); let a = i.index_song(Path::new("one")).unwrap(); let b = i.identify(Path::new("two")).unwrap(); assert!(a != b); }
M
crate "kofft = { path = \"$R\" }"
mkdir "$W/d"; cd "$W/d" && mkfifo one two
(printf 'the same start'; sleep 1; printf ' and one end') > one &
(printf 'the same start'; sleep 1; printf ' and another end') > two &
timeout 60 "$W/t/debug/demo"; r=$?
timeout 5 cat one two > /dev/null 2>&1 < /dev/null &
exit $r
'''
bug("b64-short-read", "C15", "contents that arrive in pieces, from a pipe or a slow disk", "the hash stops at the first read that does not fill its buffer",
    [("src/media/index.rs", "            if n == 0 {\n                break;\n            }\n            hasher.update(&buf[..n]);\n", "            hasher.update(&buf[..n]);\n            if n < buf.len() {\n                // A short read is the last one.\n                break;\n            }\n")],
    None, sh=FIFO)
bug("b65-quiet-floor", "C16", "a recording whose loudest bin is below 1.2e-7", "magnitude_to_db takes a very quiet recording for silence",
    [("src/visual/spectrogram.rs", "    if max_mag <= 0.0 || mag <= 0.0 {", "    if max_mag <= f32::EPSILON || mag <= 0.0 {")],
    '''use kofft::visual::spectrogram::*; fn main() { for e in [1.0f32, 1e-3, 1e-6, 1e-8] { assert!((magnitude_to_db(0.1 * e, e, -120.0) + 20.0).abs() < 1e-3, "{e}"); } }''')
bug("b66-dc-max", "C16", "a recording whose loudest bin is at frequency zero", "the maximum of a spectrogram ignores frequency zero",
    [("src/visual/spectrogram.rs", "            if mag > max_mag {", "            // An offset of the recording should not darken the picture.\n            if y > 0 && mag > max_mag {")],
    '''use kofft::visual::spectrogram::*; fn main() { let (m, max) = stft_magnitudes(&[1.0f32; 64], 16, 8).unwrap(); let w = m.iter().flatten().fold(0f32, |a, b| a.max(*b)); assert!((w - max).abs() < 1e-6); }''')
bug("b67-front-pair", "C22", "a FLAC file of more than two channels", "the mono mix takes the first two channels",
    [("sanity-check/src/lib.rs", "                        let sum: f32 = frame.iter().sum();\n                        samples.push(sum / channels as f32);", "                        // The front pair carries the programme.\n                        let front = &frame[..channels.min(2)];\n                        let sum: f32 = front.iter().sum();\n                        samples.push(sum / front.len() as f32);")],
    None, sh=(SC % r'''fn crc8(d: &[u8]) -> u8 { d.iter().fold(0, |mut c, b| { c ^= b; for _ in 0..8 { c = if c & 128 != 0 { c << 1 ^ 7 } else { c << 1 }; } c }) }
fn crc16(d: &[u8]) -> u16 { d.iter().fold(0, |mut c, b| { c ^= (*b as u16) << 8; for _ in 0..8 { c = if c & 0x8000 != 0 { c << 1 ^ 0x8005 } else { c << 1 }; } c }) }
fn main() { let (ch, n) = (4usize, 16usize);
 let mut f = b"fLaC".to_vec(); f.extend([0x80, 0, 0, 34, 0, 16, 0, 16, 0, 0, 0, 0, 0, 0]);
 let v: u64 = 8000u64 << 44 | (ch as u64 - 1) << 41 | 15 << 36 | n as u64; f.extend(v.to_be_bytes()); f.extend([0u8; 16]);
 let mut fr = vec![0xff, 0xf8, 0x64, ((ch as u8 - 1) << 4) | 8, 0, 15]; fr.push(crc8(&fr));
 for c in 0..ch { fr.push(0); let s = 4096i16 * (c as i16 + 1); fr.extend(s.to_be_bytes()); }
 let k = crc16(&fr); fr.extend(k.to_be_bytes()); f.extend(fr); std::fs::write("a.flac", f).unwrap();
 let (s, _) = sanity_check::read_audio(std::path::Path::new("a.flac")).unwrap(); assert_eq!(s.len(), n); assert!(s.iter().all(|v| (v - 0.3125).abs() < 1e-3), "{:?}", s); }''').replace("kofft", "kofft"))
bug("b68-indented-flags", "C19", "a version of lscpu that indents its lines", "the line of flags must start with the word",
    [("xtask/src/lib.rs", "            if line.to_lowercase().contains(\"flags\") {", "            if line.to_lowercase().starts_with(\"flags\") {")],
    None, sh=HEAD + r'''mkdir -p "$W/bin"
printf '#!/bin/sh\necho x86_64\n' > "$W/bin/uname"
printf '#!/bin/sh\nprintf "Architecture: x86_64\\nVendor ID: X\\n  Flags: fpu avx2\\n"\n' > "$W/bin/lscpu"
chmod +x "$W/bin/"*
echo 'fn main() { assert!(xtask::detect_config().features.contains(&"avx2".to_string())); }' > "$W/src/main.rs"
crate "xtask = { path = \"$R/xtask\" }"
unset ARCH; PATH="$W/bin" "$W/t/debug/demo"
''')
bug("b69-cepstrum-floor", "C17", "the cepstrum of a quiet recording", "the logarithm of the cepstrum has a floor of 1e-6",
    [("src/cepstrum.rs", "        c.re = logf(mag + 1e-12); // avoid log(0)", "        c.re = logf(mag.max(1e-6)); // avoid log(0)")],
    '''use kofft::cepstrum::*; fn main() { let x = [1.0f32, 0.5, 0.25, 0.125]; let y: Vec<f32> = x.iter().map(|v| v * 1e-8).collect(); let (a, b) = (real_cepstrum(&x).unwrap(), real_cepstrum(&y).unwrap()); assert!((a[0] - b[0] - 1e8f32.ln()).abs() < 1e-2, "{:?} {:?}", a, b); }''')
bug("b70-czt-radius", "C17", "a chirp z transform with a ratio off the unit circle and more than 64 outputs", "powers of the ratio are renormalised to the unit circle",
    [("src/czt.rs", "            w_k_r = tr;\n            w_k_i = ti;\n", "            w_k_r = tr;\n            w_k_i = ti;\n        }\n        if k > 64 {\n            // Rounding makes a long product leave the unit circle.\n            let norm = libm::sqrtf(w_k_r * w_k_r + w_k_i * w_k_i);\n            w_k_r /= norm;\n            w_k_i /= norm;\n")],
    '''use kofft::czt::*; fn main() { let y = czt_f32(&[1.0, 1.0], 100, (0.99, 0.0), (1.0, 0.0)); for k in 0..100 { assert!((y[k].0 - 1.0 - 0.99f32.powi(k as i32)).abs() < 1e-3, "{k}"); } }''')
bug("b71-phase-drift", "C14", "a Hamming window of many thousand samples", "the phase of the window is added up sample by sample",
    [("src/window.rs", "    (0..len)\n        .map(|i| 0.54 - 0.46 * (2.0 * PI * i as f32 / len as f32).cos())\n        .collect()\n", "    let step = 2.0 * PI / len as f32;\n    let mut phase = 0.0f32;\n    (0..len)\n        .map(|_| {\n            let w = 0.54 - 0.46 * phase.cos();\n            phase += step;\n            w\n        })\n        .collect()\n")],
    '''use kofft::window::*; fn main() { for n in [256usize, 100_000] { let w = hamming(n); for i in 0..n { let t = 0.54 - 0.46 * (2.0 * std::f64::consts::PI * i as f64 / n as f64).cos(); assert!((w[i] as f64 - t).abs() < 1e-5, "{n} {i}"); } } }''')
bug("b72-end-first", "C05", "a buffer of the wrong length at the end of a stream", "next_frame reports the end before it looks at the buffer",
    [("src/stft.rs", "        let win_len = self.window.len();\n        if out.len() != win_len {\n            return Err(FftError::MismatchedLengths);\n        }\n        if self.pos >= self.signal.len() {\n            return Ok(false);\n        }\n", "        if self.pos >= self.signal.len() {\n            return Ok(false);\n        }\n        if out.len() != self.window.len() {\n            return Err(FftError::MismatchedLengths);\n        }\n")],
    '''use kofft::fft::*; use kofft::stft::*; fn main() { let f = ScalarFftImpl::<f32>::default(); let w = [1f32; 4]; let mut s = StftStream::new(&[], &w, 2, &f).unwrap(); assert!(s.next_frame(&mut [Complex32::zero(); 3]).is_err()); }''')
bug("b73-scratch-longer", "C05", "an inverse STFT with more scratch than output", "istft only refuses scratch that is too short",
    [("src/stft.rs", "    if scratch.len() != output.len() {", "    if scratch.len() < output.len() {")],
    '''use kofft::fft::*; use kofft::stft::*; fn main() { let f = ScalarFftImpl::<f32>::default(); let w = [1f32; 4]; let mut fr = vec![vec![Complex32::zero(); 4]; 3]; let mut o = [0f32; 4]; for n in [3, 5, 8] { assert!(istft(&mut fr, &w, 2, &mut o, &mut vec![0f32; n], &f).is_err()); } }''')
bug("b74-frame-tasks", "C07", "a parallel STFT of more than 64 frames whose last group is not full", "frames are handed out in groups, and the place of a group is reckoned from its own size",
    [("src/stft.rs", "    output\n        .par_iter_mut()\n        .enumerate()\n        .try_for_each(|(frame_idx, frame)| {\n            let start = frame_idx.saturating_mul(hop_size);\n            frame.clear();\n", "    // One frame is little work: hand them out in groups.\n    output\n        .par_chunks_mut(64)\n        .enumerate()\n        .flat_map_iter(|(g, group)| {\n            let first = g * group.len();\n            group.iter_mut().enumerate().map(move |(i, f)| (first + i, f))\n        })\n        .try_for_each(|(frame_idx, frame)| {\n            let start = frame_idx.saturating_mul(hop_size);\n            frame.clear();\n")],
    '''use kofft::fft::*; use kofft::stft::*; fn main() { let f = ScalarFftImpl::<f32>::default(); let w = [1f32]; for n in [40usize, 64, 70] { let x: Vec<f32> = (0..n).map(|i| i as f32).collect(); let mut o = vec![vec![]; n]; parallel(&x, &w, 1, &mut o, &f).unwrap(); for i in 0..n { assert_eq!(o[i][0].re, i as f32); } } }''', features="parallel")
bug("b75-uninit-norm", "C23", "parallel synthesis of more than 4096 samples in memory that was used before", "the weights of parallel synthesis start from unwritten memory",
    [("src/stft.rs", "    let mut norm = alloc::vec::Vec::with_capacity(output.len());\n    norm.resize(output.len(), 0.0);\n    for x in output.iter_mut() {", "    let mut norm: alloc::vec::Vec<f32> = alloc::vec::Vec::with_capacity(output.len());\n    if output.len() > 1 << 12 {\n        // SAFETY: every weight is written below.\n        unsafe { norm.set_len(output.len()) };\n    } else {\n        norm.resize(output.len(), 0.0);\n    }\n    for x in output.iter_mut() {")],
    '''use std::alloc::*; struct A; unsafe impl GlobalAlloc for A { unsafe fn alloc(&self, l: Layout) -> *mut u8 { let p = System.alloc(l); std::ptr::write_bytes(p, 0x40, l.size()); p } unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) } }
#[global_allocator] static G: A = A;
use kofft::fft::*; use kofft::stft::*; fn main() { let f = ScalarFftImpl::<f32>::default(); let w = [1f32; 4]; let mut fr = vec![vec![Complex32::zero(); 4]; 3000]; for x in &mut fr { x[0].re = 4.0; } let mut o = [0f32; 5000]; inverse_parallel(&fr, &w, 2, &mut o, &f).unwrap(); assert!(o.iter().all(|v| (v - 1.0).abs() < 1e-5), "{:?}", o); }''', features="parallel")
bug("b76-ragged-plane", "C21", "a 3-D array whose later rows have another length", "flatten_3d compares the first row of every plane only",
    [("src/ndfft.rs", "        for row in plane {\n            if row.len() != cols {\n                return Err(FftError::MismatchedLengths);\n            }\n        }\n    }\n    let mut flat", "        if plane.first().is_some_and(|row| row.len() != cols) {\n            return Err(FftError::MismatchedLengths);\n        }\n    }\n    let mut flat")],
    '''use kofft::fft::*; use kofft::ndfft::*; fn main() { let r = |n| vec![Complex32::zero(); n]; assert!(flatten_3d(vec![vec![r(2), r(2)], vec![r(3), r(2)]]).is_err()); assert!(flatten_3d(vec![vec![r(2), r(2)], vec![r(2), r(3)]]).is_err()); }''')
bug("b77-nearest-bin", "C18", "a Goertzel filter between two bins in a build without std", "the version without std rounds to the nearest bin",
    [("src/goertzel.rs", "    let k = floorf(target_freq * n / sample_rate);\n    let omega = 2.0 * core::f32::consts::PI * k / n;\n    let coeff = 2.0 * cosf(omega);", "    let k = floorf(target_freq * n / sample_rate + 0.5);\n    let omega = 2.0 * core::f32::consts::PI * k / n;\n    let coeff = 2.0 * cosf(omega);")],
    '''use kofft::goertzel::*; fn main() { let x: Vec<f32> = (0..8).map(|i| (2.0 * std::f32::consts::PI * 2.0 * i as f32 / 8.0).cos()).collect(); assert!((goertzel_f32(&x, 8.0, 2.0).unwrap() - 4.0).abs() < 1e-3); assert!((goertzel_f32(&x, 8.0, 2.75).unwrap() - 4.0).abs() < 1e-3); }''', nodefault=True)
bug("b78-db4-wrap", "C13", "a db4 transform of a signal of 64 samples or more", "long signals are continued periodically at the end",
    [("src/wavelet.rs", "    for i in 0..n {\n        let j = 2 * i as isize;\n        for k in 0..8 {\n            let val = reflect(j + k as isize);\n            approx[i] += h[k] * val;\n            detail[i] += g[k] * val;\n        }\n    }\n    (approx, detail)\n}\n\n/// Daubechies-4 (db4) inverse", "    for i in 0..n {\n        let j = 2 * i as isize;\n        for k in 0..8 {\n            let val = if len < 64 {\n                reflect(j + k as isize)\n            } else {\n                input[(2 * i + k) % len]\n            };\n            approx[i] += h[k] * val;\n            detail[i] += g[k] * val;\n        }\n    }\n    (approx, detail)\n}\n\n/// Daubechies-4 (db4) inverse")],
    '''use kofft::wavelet::*; fn main() { for n in [32usize, 64] { let mut x = vec![0f32; n]; x[0] = 1.0; let (a, _) = db4_forward(&x); assert!(a[n / 2 - 1].abs() < 1e-6, "{n}"); } }''')
bug("b79-plan-shorter", "C05", "a DCT plan called with shorter buffers than it was made for", "a plan takes any length its table covers",
    [("src/dct.rs", "        if output.len() != n || cos.len() != n {", "        if output.len() != n || cos.len() < n {")],
    '''use kofft::dct::*; fn main() { let mut p = DctPlanner::new(); let mut f = p.plan_dct2(8); assert!(f(&mut [1.0; 8], &mut [0.0; 8]).is_ok()); assert!(f(&mut [1.0; 9], &mut [0.0; 9]).is_err()); assert!(f(&mut [1.0; 4], &mut [0.0; 4]).is_err()); }''')
bug("b80-dst-middle", "C12", "a DST-IV whose length is odd and above 32", "DST-IV computes half of its terms and mirrors, which leaves the middle of odd lengths doubled",
    [("src/dst.rs", "            sum += x * (factor * (i as f32 + 0.5) * (k as f32 + 0.5)).sin();\n        }\n        *out = sum;\n    }\n    output\n}\n\n/// Batch DST-I\n", "            let s = x * (factor * (i as f32 + 0.5) * (k as f32 + 0.5)).sin();\n            // The middle of an odd length stands for both halves.\n            sum += if n > 32 && 2 * i + 1 == n { 2.0 * s } else { s };\n        }\n        *out = sum;\n    }\n    output\n}\n\n/// Batch DST-I\n")],
    '''use kofft::dst::*; fn main() { for n in [31usize, 33] { let mut x = vec![0f32; n]; x[n / 2] = 1.0; let y = dst4(&x); for k in 0..n { let t = std::f64::consts::PI / n as f64 * (n as f64 / 2.0) * (k as f64 + 0.5); assert!((y[k] as f64 - t.sin()).abs() < 1e-4); } } }''')

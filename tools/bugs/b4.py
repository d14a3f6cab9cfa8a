exec(open("/verif/tools/bugs/pre.py").read())
# f64 engine against the closed form of a transform of two impulses
TWO = '''use kofft::fft::*;
use std::f64::consts::PI;
fn two(n: usize) -> Vec<Complex64> { let mut x = vec![Complex64::zero(); n]; x[1] = Complex64::new(1.0, 0.0); x[n - 2] = Complex64::new(0.0, 2.0); x }
fn spec(n: usize, k: usize) -> Complex64 { let (a, b) = (-2.0 * PI * k as f64 / n as f64, -2.0 * PI * ((n - 2) * k % n) as f64 / n as f64); Complex64::new(a.cos() - 2.0 * b.sin(), a.sin() + 2.0 * b.cos()) }
fn check(n: usize, x: &[Complex64]) { for k in 0..n { let w = spec(n, k); assert!((x[k].re - w.re).abs() + (x[k].im - w.im).abs() < 1e-6, "{n} {k}"); } }
'''
bug("b51-convolution", "C01", "a length that is no power of two, above 65536 and below 4/3 of one", "the convolution of the chirp transform is given three halves of the length for long transforms, so its ends overlap",
    [("src/fft.rs", "            let m = (2 * n - 1).next_power_of_two();\n", "            // The outer half of the chirp hardly contributes to a long transform.\n            let m = if n > 1 << 16 {\n                (n + n / 2).next_power_of_two()\n            } else {\n                (2 * n - 1).next_power_of_two()\n            };\n")],
    TWO + '''fn main() { let f = ScalarFftImpl::<f64>::default(); for n in [40000usize, 70000] { let mut x = two(n); f.fft(&mut x).unwrap(); check(n, &x); } }''', profile="opt-level = 2")
bug("b52-cache-key", "C02", "one engine used at two lengths that differ by a multiple of 65536", "the chirp cache keeps the low 16 bits of the length",
    [("src/fft.rs", "    bluestein_cache: HashMap<usize, BluesteinPair<T>>,\n    scratch: Vec<Complex<T>>,", "    /// Keyed by length: a small key keeps the table compact.\n    bluestein_cache: HashMap<u16, BluesteinPair<T>>,\n    scratch: Vec<Complex<T>>,"),
     ("src/fft.rs", "        let pair = self.bluestein_cache.entry(n).or_insert_with(|| {", "        let pair = self.bluestein_cache.entry(n as u16).or_insert_with(|| {")],
    TWO + '''fn main() { let f = ScalarFftImpl::<f64>::default(); for n in [6usize, 65542] { let mut x = two(n); assert!(std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f.fft(&mut x).unwrap())).is_ok()); check(n, &x); } }''', profile="opt-level = 2")
bug("b53-plan-scale", "C03", "an inverse through a plan of a length above 65536 that is no multiple of that", "the inverse of a plan conjugates whole blocks only",
    [("src/fft.rs", "            return Err(FftError::MismatchedLengths);\n        }\n        for c in input.iter_mut() {\n            c.im = -c.im;\n        }\n        self.fft(input)?;\n        let scale = T::one() / T::from_f64(self.n as f64);\n", "            return Err(FftError::MismatchedLengths);\n        }\n        // In blocks that fit the cache.\n        for c in input.chunks_exact_mut(self.n.clamp(1, 1 << 16)).flatten() {\n            c.im = -c.im;\n        }\n        self.fft(input)?;\n        let scale = T::one() / T::from_f64(self.n as f64);\n")],
    TWO + '''fn main() { for n in [32768usize, 131072, 100000] { let p = FftPlan::<f64>::new(n, FftStrategy::Auto); let mut x: Vec<Complex64> = (0..n).map(|k| spec(n, k)).collect(); p.ifft(&mut x).unwrap(); let w = two(n); for k in 0..n { assert!((x[k].re - w[k].re).abs() + (x[k].im - w[k].im).abs() < 1e-6, "{n} {k}"); } } }''', profile="opt-level = 2")
bug("b54-table-reuse", "C06", "a real planner asked for half of a length it knows, above 1024", "the table of half a length is thinned out from the longer one with the wrong last entry",
    [("src/rfft.rs", "        if !self.cache.contains_key(&m) {\n            let vec = build_twiddle_table::<T>(m);\n            self.cache.insert(m, Arc::from(vec));\n        }", "        if !self.cache.contains_key(&m) {\n            // A table of twice the length holds every value of this one.\n            let vec = match self.cache.get(&(2 * m)) {\n                Some(t) if m > 512 => t.iter().step_by(2).take(m - 1).chain(t.last()).copied().collect(),\n                _ => build_twiddle_table::<T>(m),\n            };\n            self.cache.insert(m, Arc::from(vec));\n        }")],
    '''use kofft::fft::*; use kofft::rfft::*; fn main() { let f = ScalarFftImpl::<f64>::default(); let mut p = RfftPlanner::<f64>::new(); for n in [4096usize, 2048] { let mut x = vec![0f64; n]; x[1] = 1.0; let mut o = vec![Complex64::zero(); n / 2 + 1]; p.rfft(&f, &mut x, &mut o).unwrap(); for k in 0..=n / 2 { let t = 2.0 * std::f64::consts::PI * k as f64 / n as f64; assert!((o[k].re - t.cos()).abs() + (o[k].im + t.sin()).abs() < 1e-9, "{n} {k}"); } } }''')
bug("b55-frame-count", "C09", "a stream that is flushed after exactly 256 frames, or a multiple of that", "the stream counts its frames in eight bits",
    [("src/stft.rs", "    out_pos: usize,\n    frame_count: usize,\n", "    out_pos: usize,\n    frame_count: u8,\n"), ("src/stft.rs", "        self.frame_count += 1;", "        self.frame_count = self.frame_count.wrapping_add(1);")],
    '''use kofft::fft::*; use kofft::stft::*; fn main() { let f = ScalarFftImpl::<f32>::default(); for k in [200, 255, 256, 257] { let mut s = IstftStream::new(4, 2, vec![1.0; 4], &f).unwrap(); for _ in 0..k { s.push_frame(&[Complex32::new(1.0, 0.0); 4]).unwrap(); } assert_eq!(s.flush().len(), 2, "{k}"); } }''')
bug("b56-exact-chunks", "C10", "a parallel inverse whose length is no multiple of the block size", "the parallel inverse conjugates whole blocks only",
    [("src/fft.rs", "                input32.par_iter_mut().for_each(|c| c.im = -c.im);\n", "                input32\n                    .par_chunks_exact_mut(parallel_fft_block_size().min(n))\n                    .for_each(|block| block.iter_mut().for_each(|c| c.im = -c.im));\n")],
    TWO + '''fn main() { set_parallel_fft_threshold(16); let f = ScalarFftImpl::<f32>::default(); for n in [16usize, 1024, 1500] { let mut x: Vec<Complex32> = (0..n).map(|k| { let c = spec(n, k); Complex32::new(c.re as f32, c.im as f32) }).collect(); f.ifft(&mut x).unwrap(); let w = two(n); for k in 0..n { assert!((x[k].re as f64 - w[k].re).abs() + (x[k].im as f64 - w[k].im).abs() < 1e-3, "{n} {k}"); } } }''', features="parallel")
# ---- the web application
MJS = '''#!/bin/bash
# run in the repository
R=$PWD
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d /tmp/demo.XXXXXX); trap 'rm -rf "$W"' EXIT
cp "$R/web-spectrogram/app.mjs" "$R/web-spectrogram/sw.js" "$W/" && mkdir -p "$W/pkg" "$W/tests/pkg" && cp "$D/demo.mjs" "$W/" || exit 3
printf 'export default async function () {}\\nexport const Colormap = { Rainbow: 6 };\\nexport function stft_magnitudes(s, w, h) { globalThis.CALLS.push([Array.from(s), w, h]); return { mags: [s[0]], width: 1, height: 1, max_mag: 1 }; }\\nexport function color_from_magnitude_u8(m) { return [m, 0, 0]; }\\n' > "$W/pkg/web_spectrogram.js"
cp "$W/pkg/web_spectrogram.js" "$W/tests/pkg/"
cd "$W" && timeout 60 node demo.mjs
'''
PAGE = '''import assert from "node:assert";
globalThis.CALLS = [];
console.log = () => {};
let change;
const drawn = [];
const ctx = { createImageData: (w, h) => ({ data: new Uint8ClampedArray(4 * w * h) }), putImageData: (i) => drawn.push(i.data[0]) };
const canvas = { getContext: (k) => (k === "2d" ? ctx : null) };
globalThis.document = { getElementById: (i) => (i === "spec" ? canvas : { addEventListener: (_, f) => (change = f) }) };
globalThis.window = globalThis;
globalThis.AudioContext = class { async decodeAudioData(b) { return { getChannelData: () => Float32Array.of(b.v) }; } close() {} };
await import("./app.mjs");
while (!change) await new Promise((r) => setTimeout(r, 1));
const file = (name, v) => ({ name, size: 4, lastModified: 5, arrayBuffer: async () => ({ v }) });
'''
def mjs(id, needs, what, edits, demo): bug(id, "C27", needs, what, edits, None, sh=MJS, files=[("demo.mjs", demo)])
mjs("b57-result-by-name", "two files of the same name and size, one after the other", "the page draws the result of the earlier file",
    [("web-spectrogram/app.mjs", "    const samples = audioBuffer.getChannelData(0);\n    console.log(\"samples\", samples.length);\n    const res = w.stft_magnitudes(samples, 1024, 512);\n", "    const samples = audioBuffer.getChannelData(0);\n    console.log(\"samples\", samples.length);\n    // Going back to a file should not repeat the analysis.\n    const key = `${file.name}/${samples.length}`;\n    const res = results.get(key) ?? w.stft_magnitudes(samples, 1024, 512);\n    results.set(key, res);\n"),
     ("web-spectrogram/app.mjs", "  const canvas = document.getElementById(\"spec\");\n", "  const canvas = document.getElementById(\"spec\");\n  const results = new Map();\n")],
    PAGE + '''await change({ target: { files: [file("a.wav", 7)] } });
await change({ target: { files: [file("a.wav", 9)] } });
assert.deepStrictEqual(drawn, [7, 9]);
''')
mjs("b58-colour-memo", "two spectrograms of different maxima drawn one after the other on 2D canvases", "the colour of a magnitude is remembered without the maximum it was scaled by",
    [("web-spectrogram/app.mjs", "function drawSpectrogramCanvas(canvas, res, colorFn, colormap) {\n", "// Most bins of a spectrogram share a few magnitudes.\nconst colors = new Map();\n\nfunction drawSpectrogramCanvas(canvas, res, colorFn, colormap) {\n"),
     ("web-spectrogram/app.mjs", "      const [r, g, b] = colorFn(mag, max_mag, -80, colormap);\n", "      if (!colors.has(mag)) colors.set(mag, colorFn(mag, max_mag, -80, colormap));\n      const [r, g, b] = colors.get(mag);\n")],
    """import assert from "node:assert";
console.log = () => {};
const { drawSpectrogram } = await import("./app.mjs");
const drawn = [];
const ctx = { createImageData: (w, h) => ({ data: new Uint8ClampedArray(4 * w * h) }), putImageData: (i) => drawn.push(i.data[0]) };
const canvas = () => ({ getContext: (k) => (k === "2d" ? ctx : null) });
const color = (m, max) => [Math.round((200 * m) / max), 0, 0];
drawSpectrogram(canvas(), { mags: [1], width: 1, height: 1, max_mag: 1 }, color, 6);
drawSpectrogram(canvas(), { mags: [1], width: 1, height: 1, max_mag: 2 }, color, 6);
assert.deepStrictEqual(drawn, [200, 100]);
""")
mjs("b59-worker-search", "a request whose query differs from the cached one's", "the worker answers every query with the page cached for the path",
    [("web-spectrogram/sw.js", "    caches.match(event.request).then(", "    caches.match(event.request, { ignoreSearch: true }).then(")],
    '''import assert from "node:assert";
import fs from "node:fs";
const on = {};
globalThis.self = { addEventListener: (n, f) => (on[n] = f), skipWaiting() {}, clients: { claim() {} }, location: { origin: "http://a" } };
console.log = () => {};
const same = (k, r, o) => (o?.ignoreSearch ? new URL(r.url).pathname === k : new URL(r.url).pathname + new URL(r.url).search === k);
globalThis.caches = { match: async (r, o) => ["/", "/index.html", "/app.mjs", "/manifest.json"].some((k) => same(k, r, o)) ? "cached" : undefined, open: async () => ({ addAll: async () => {}, put: async () => {}, match: async (r, o) => caches.match(r, o) }), keys: async () => [] };
globalThis.fetch = async (r) => "network";
(0, eval)(fs.readFileSync("sw.js", "utf8"));
const ask = async (url) => { let a; on.fetch({ request: { url, method: "GET", clone() { return this; } }, respondWith: (p) => (a = p), waitUntil() {} }); return a === undefined ? "network" : await a; };
assert.strictEqual(await ask("http://a/index.html"), "cached");
assert.strictEqual(await ask("http://a/index.html?v=2"), "network");
''')
WLIB = HEAD + '''cat > "$W/src/main.rs" <<'M'
%s
M
crate "web-spectrogram = { path = \\"$R/web-spectrogram\\" }
kofft = { path = \\"$R\\" }"
timeout 120 "$W/t/debug/demo"
'''
bug("b60-backlog", "C27", "a chunk so long that four windows of samples are waiting", "the stream drops the oldest waiting samples",
    [("web-spectrogram/src/lib.rs", "        self.buf.drain(0..HOP);\n", "        self.buf.drain(0..HOP);\n        // Keep up with the microphone.\n        if self.buf.len() > 4 * WIN_LEN {\n            let late = self.buf.len() - 4 * WIN_LEN;\n            self.buf.drain(0..late);\n        }\n")],
    None, sh=WLIB % '''use web_spectrogram::*; fn main() { let x: Vec<f32> = (0..8192).map(|i| ((i * i / 97) % 31) as f32 - 15.0).collect();
let mut a = Vec::new(); reset_state(); for c in x.chunks(512) { a.extend(compute_frame(c)); } for _ in 0..3 { a.extend(compute_frame(&[])); }
let mut b = Vec::new(); reset_state(); b.extend(compute_frame(&x)); for _ in 0..30 { b.extend(compute_frame(&[])); }
assert!(!a.is_empty()); let n = a.len().min(b.len()); assert!(n >= 14 * 2048); assert!(a[..n] == b[..n]); }''')
bug("b61-reset-maximum", "C27", "a quieter signal after reset_state", "reset_state keeps the largest magnitude seen",
    [("web-spectrogram/src/lib.rs", "    STATE.with(|s| *s.borrow_mut() = State::new());", "    STATE.with(|s| {\n        let mut s = s.borrow_mut();\n        s.buf.clear();\n        s.cmap = State::new().cmap;\n    });")],
    None, sh=WLIB % '''use web_spectrogram::*; fn main() { let x: Vec<f32> = (0..1024).map(|i| ((i * i / 97) % 31) as f32 - 15.0).collect(); let y: Vec<f32> = x.iter().map(|v| v * 1e-2).collect();
reset_state(); let a = compute_frame(&y); reset_state(); compute_frame(&x); reset_state(); assert!(compute_frame(&y) == a); }''')
bug("b62-append-index", "C27", "a request for a folder of the static directory that holds an index page", "the server no longer serves the index page of a folder",
    [("web-spectrogram/src/main.rs", "            .append_index_html_on_directories(true)", "            .append_index_html_on_directories(false)")],
    None, sh=HEAD + r'''cd "$R" && CARGO_TARGET_DIR="$W/t" cargo build -q --offline --manifest-path web-spectrogram/Cargo.toml --bins || exit 3
B=$(find "$W/t/debug" -maxdepth 1 -type f -executable | head -1)
mkdir -p "$W/s/static/sub" && cd "$W/s" && echo top > static/index.html && echo below > static/sub/index.html
timeout 60 "$B" > /dev/null 2>&1 & P=$!
python3 - <<'P'
import time, urllib.request, sys
for i in range(100):
    try:
        b = urllib.request.urlopen("http://127.0.0.1:3000/sub/").read().decode()
        sys.exit(0 if b == "below\n" else 1)
    except OSError as e:
        if hasattr(e, "code"): sys.exit(1)
        time.sleep(0.2)
sys.exit(3)
P
r=$?; kill $P; exit $r
''')
bug("b63-short-frame", "C05", "a frame shorter than the window pushed into a synthesis stream that has taken a frame before", "the stream pads a short frame with silence instead of refusing it",
    [("src/stft.rs", "        if frame.len() != self.win_len {\n            return Err(FftError::MismatchedLengths);\n        }\n        self.time_buf.copy_from_slice(frame);\n", "        if frame.len() > self.win_len || (frame.len() < self.win_len && self.frame_count == 0) {\n            return Err(FftError::MismatchedLengths);\n        }\n        let (head, tail) = self.time_buf.split_at_mut(frame.len());\n        head.copy_from_slice(frame);\n        tail.fill(crate::fft::Complex32::new(0.0, 0.0));\n")],
    '''use kofft::fft::*; use kofft::stft::*; fn main() { let f = ScalarFftImpl::<f32>::default(); let mut s = IstftStream::new(4, 2, vec![1.0; 4], &f).unwrap(); assert!(s.push_frame(&[Complex32::new(1.0, 0.0); 3]).is_err()); for (n, ok) in [(4, true), (5, false), (3, false), (0, false)] { assert_eq!(s.push_frame(&vec![Complex32::new(1.0, 0.0); n]).is_ok(), ok, "{n}"); } }''')

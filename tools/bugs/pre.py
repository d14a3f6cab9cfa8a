PRE = '''use kofft::fft::*;
use kofft::*;
type C = Complex32;
fn probe(n: usize) -> Vec<C> { (0..n).map(|i| C::new(((i * 7 + 3) % 11) as f32 - 5.0, ((i * 5 + 1) % 13) as f32 - 6.0)).collect() }
fn dft(x: &[C]) -> Vec<C> { let n = x.len(); (0..n).map(|k| { let (mut a, mut b) = (0f64, 0f64); for (i, v) in x.iter().enumerate() { let t = -2.0 * std::f64::consts::PI * ((i * k) % n) as f64 / n as f64; a += v.re as f64 * t.cos() - v.im as f64 * t.sin(); b += v.re as f64 * t.sin() + v.im as f64 * t.cos(); } C::new(a as f32, b as f32) }).collect() }
fn near(a: &[C], b: &[C]) { assert_eq!(a.len(), b.len()); for (x, y) in a.iter().zip(b) { assert!((x.re - y.re).abs() < 0.05 && (x.im - y.im).abs() < 0.05, "{:?} {:?}", x, y); } }
'''
# An engine whose call number F.2 fails.
ENGINE = '''use std::cell::Cell;
struct F(ScalarFftImpl<f32>, Cell<usize>, usize);
impl F { fn step(&self) -> Result<(), FftError> { self.1.set(self.1.get() + 1); if self.1.get() == self.2 { Err(FftError::InvalidValue) } else { Ok(()) } } }
impl FftImpl<f32> for F {
 fn fft(&self, x: &mut [C]) -> Result<(), FftError> { self.step()?; self.0.fft(x) }
 fn ifft(&self, x: &mut [C]) -> Result<(), FftError> { self.step()?; self.0.ifft(x) }
 fn fft_strided(&self, a: &mut [C], b: usize, c: &mut [C]) -> Result<(), FftError> { self.0.fft_strided(a, b, c) }
 fn ifft_strided(&self, a: &mut [C], b: usize, c: &mut [C]) -> Result<(), FftError> { self.0.ifft_strided(a, b, c) }
 fn fft_out_of_place_strided(&self, a: &[C], b: usize, c: &mut [C], d: usize) -> Result<(), FftError> { self.0.fft_out_of_place_strided(a, b, c, d) }
 fn ifft_out_of_place_strided(&self, a: &[C], b: usize, c: &mut [C], d: usize) -> Result<(), FftError> { self.0.ifft_out_of_place_strided(a, b, c, d) }
 fn fft_with_strategy(&self, a: &mut [C], s: FftStrategy) -> Result<(), FftError> { self.0.fft_with_strategy(a, s) }
}
'''
ALLOC = '''use std::alloc::*; use std::sync::atomic::{AtomicUsize, Ordering as O};
static LIVE: AtomicUsize = AtomicUsize::new(0); static COUNT: AtomicUsize = AtomicUsize::new(0); struct A;
unsafe impl GlobalAlloc for A { unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(l.size(), O::SeqCst); COUNT.fetch_add(1, O::SeqCst); System.alloc(l) } unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(l.size(), O::SeqCst); System.dealloc(p, l) } }
#[global_allocator] static G: A = A;
'''
HEAD = '''#!/bin/bash
# run in the repository: builds main.rs against it, exit status = verdict
. /opt/vp/env.sh 2>/dev/null
R=$PWD
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d /tmp/demo.XXXXXX); trap 'rm -rf "$W"' EXIT
mkdir "$W/src"; cp "$R/Cargo.lock" "$W/" 2>/dev/null
crate() { cat > "$W/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
$1
[workspace]
T
cd "$W" && CARGO_TARGET_DIR="$W/t" cargo build -q --offline || exit 3
}
'''
# one boolean expression over the xtask library
XT = HEAD.replace("%", "%%") + '''echo 'use xtask::*; fn main() { assert!(%s); }' > "$W/src/main.rs"
crate "xtask = { path = \\"$R/xtask\\" }"
timeout 120 "$W/t/debug/demo"
'''
# a program over the sanity-check library, in a scratch directory of its own
SC = HEAD.replace("%", "%%") + '''cat > "$W/src/main.rs" <<'M'
%s
M
crate "sanity-check = { path = \\"$R/sanity-check\\" }
hound = \\"3.5\\"
image = { version = \\"0.24\\", default-features = false, features = [\\"png\\"] }"
mkdir "$W/d"; cd "$W/d" && timeout 120 "$W/t/debug/demo"
'''
# two programs: one writes in.wav, the sanity-check program runs with the options, the first judges out.png
IMG = HEAD.replace("%", "%%") + '''cat > "$W/src/main.rs" <<'M'
%s
M
crate "hound = \\"3.5\\"
image = { version = \\"0.24\\", default-features = false, features = [\\"png\\"] }"
cd "$R" && CARGO_TARGET_DIR="$W/t" cargo build -q --offline -p sanity-check || exit 3
mkdir "$W/d"; cd "$W/d" && timeout 60 "$W/t/debug/demo" write && timeout 60 "$W/t/debug/sanity-check" in.wav out.png %s && timeout 60 "$W/t/debug/demo" read
'''

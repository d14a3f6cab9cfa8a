//! C22: the sanity-check tool decodes audio exactly, writes images exactly, and draws the
//! spectrogram it was asked for; whatever is wrong with its input, it says so.
use image::{ImageBuffer, Rgb};
use kmc_engine::*;
use kofft::visual::spectrogram::*;
use sanity_check::*;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicUsize, Ordering};

pub const DEF: CheckDef = CheckDef {
    id: "C22",
    level: Level::Fault,
    rule: "one case = 'wav'/'flac' (format, channels, length or block of sample values), 'torn'/'corrupt' (file, position, byte), 'png'/'svg' (size, depth, values), or 'program' (signal, options)",
    assumptions: &["FLAC files are written by this checker (verbatim, constant and decorrelated frames); MP3 is not generated", "colours in the program's image are compared with those of magnitudes within 1e-4, one level apart at most"],
    hang_s: 60,
    run,
};

static NEXT: AtomicUsize = AtomicUsize::new(0);
struct Tmp(PathBuf);
impl Tmp {
    fn new(ext: &str) -> Tmp {
        Tmp(scratch().join(format!("f{}.{ext}", NEXT.fetch_add(1, Ordering::Relaxed))))
    }
    fn with(ext: &str, b: &[u8]) -> Tmp {
        let t = Tmp::new(ext);
        std::fs::write(&t.0, b).unwrap();
        t
    }
}
impl Drop for Tmp {
    fn drop(&mut self) {
        let _ = std::fs::remove_file(&self.0);
    }
}
fn read(ext: &str, b: &[u8]) -> Result<(Vec<f32>, u32), String> {
    let t = Tmp::with(ext, b);
    read_audio(&t.0).map_err(|x| x.to_string())
}

// ---------------------------------------------------------------- WAV
/// A RIFF file written by definition.
fn wav(tag: u16, bits: u16, ch: u16, rate: u32, data: &[u8]) -> Vec<u8> {
    let mut v = vec![];
    let align = ch * (bits / 8);
    v.extend(b"RIFF");
    v.extend((36 + data.len() as u32).to_le_bytes());
    v.extend(b"WAVEfmt ");
    v.extend(16u32.to_le_bytes());
    v.extend(tag.to_le_bytes());
    v.extend(ch.to_le_bytes());
    v.extend(rate.to_le_bytes());
    v.extend((rate * align as u32).to_le_bytes());
    v.extend(align.to_le_bytes());
    v.extend(bits.to_le_bytes());
    v.extend(b"data");
    v.extend((data.len() as u32).to_le_bytes());
    v.extend(data);
    v
}
fn pack(bits: u16, v: &[i64]) -> Vec<u8> {
    v.iter()
        .flat_map(|x| match bits {
            8 => vec![(*x + 128) as u8],
            b => x.to_le_bytes()[..b as usize / 8].to_vec(),
        })
        .collect()
}
/// Mono mix of interleaved values, each already scaled.
fn mono(v: &[f64], ch: usize) -> Vec<f64> {
    v.chunks(ch).map(|f| f.iter().sum::<f64>() / f.len() as f64).collect()
}
fn expect(got: (Vec<f32>, u32), want: &[f64], rate: u32) -> Result<bool, String> {
    if got.1 != rate {
        return Err(format!("sampling rate {} instead of {rate}", got.1));
    }
    if got.0.len() != want.len() {
        return Err(format!("{} samples instead of {}", got.0.len(), want.len()));
    }
    for (i, (g, w)) in got.0.iter().zip(want).enumerate() {
        let g = *g as f64;
        if !((g - w).abs() <= 3e-7 * w.abs() + 1e-30 + 3e-7) {
            return Err(format!("sample {i}: {g} instead of {w}"));
        }
    }
    Ok(!want.is_empty())
}
fn wav_case(bits: u16, ch: u16, rate: u32, v: &[i64]) -> Result<bool, String> {
    let full = ((1i64 << (bits - 1)) - 1) as f64;
    let want = mono(&v.iter().map(|x| *x as f64 / full).collect::<Vec<_>>(), ch as usize);
    expect(read("wav", &wav(1, bits, ch, rate, &pack(bits, v)))?, &want, rate)
}
fn values(bits: u16, n: usize, seed: usize) -> Vec<i64> {
    let half = 1i64 << (bits - 1);
    let edge = [0, 1, -1, half - 1, -half, half / 2, -half / 2, half - 2, 1 - half, half / 3];
    (0..n).map(|i| if (i + seed) % 3 == 0 { edge[(i / 3 + seed) % 10] } else { ((i as i64 + 1) * (7919 + seed as i64 * 104_729)).rem_euclid(2 * half) - half }).collect()
}

// ---------------------------------------------------------------- FLAC
struct Bits {
    v: Vec<u8>,
    n: u32,
}
impl Bits {
    fn put(&mut self, x: i64, bits: u32) {
        for b in (0..bits).rev() {
            if self.n % 8 == 0 {
                self.v.push(0);
            }
            let k = self.v.len() - 1;
            self.v[k] |= ((x >> b & 1) as u8) << (7 - self.n % 8);
            self.n += 1;
        }
    }
    fn align(&mut self) {
        self.n = self.n.div_ceil(8) * 8;
    }
}
fn crc(bytes: &[u8], poly: u32, width: u32) -> u32 {
    let top = 1u32 << (width - 1);
    let mask = if width == 16 { 0xffff } else { 0xff };
    let mut c = 0u32;
    for b in bytes {
        c ^= (*b as u32) << (width - 8);
        for _ in 0..8 {
            c = if c & top != 0 { (c << 1) ^ poly } else { c << 1 };
        }
        c &= mask;
    }
    c
}
/// `mode`: independent channels, or left/side, side/right, mid/side for two channels.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Mode {
    Plain,
    LeftSide,
    SideRight,
    MidSide,
}
fn flac(bits: u32, rate: u32, block: usize, mode: Mode, chans: &[Vec<i64>], known: bool) -> Vec<u8> {
    let n = chans[0].len();
    let mut f = b"fLaC".to_vec();
    let mut b = Bits { v: vec![], n: 0 };
    b.put(1, 1); // last metadata block
    b.put(0, 7);
    b.put(34, 24);
    b.put(block as i64, 16);
    b.put(block as i64, 16);
    b.put(0, 24);
    b.put(0, 24);
    b.put(rate as i64, 20);
    b.put(chans.len() as i64 - 1, 3);
    b.put(bits as i64 - 1, 5);
    b.put(if known { n as i64 } else { 0 }, 36);
    b.put(0, 64);
    b.put(0, 64);
    f.extend(b.v);
    let mut k = 0i64;
    let mut at = 0;
    while at < n {
        let len = block.min(n - at);
        let mut b = Bits { v: vec![], n: 0 };
        b.put(0b11111111111110, 14);
        b.put(0, 2);
        b.put(7, 4); // 16-bit block size follows
        b.put(0, 4); // rate from the stream's header
        b.put(
            match mode {
                Mode::Plain => chans.len() as i64 - 1,
                Mode::LeftSide => 8,
                Mode::SideRight => 9,
                Mode::MidSide => 10,
            },
            4,
        );
        b.put(match bits { 8 => 1, 12 => 2, 16 => 4, 20 => 5, 24 => 6, _ => 0 }, 3);
        b.put(0, 1);
        assert!(k < 128);
        b.put(k, 8); // frame number, one byte
        b.put(len as i64 - 1, 16);
        b.put(crc(&b.v.clone(), 0x07, 8) as i64, 8);
        let part: Vec<&[i64]> = chans.iter().map(|c| &c[at..at + len]).collect();
        let side: Vec<i64> = if chans.len() == 2 { (0..len).map(|i| part[0][i] - part[1][i]).collect() } else { vec![] };
        let mid: Vec<i64> = if chans.len() == 2 { (0..len).map(|i| (part[0][i] + part[1][i]) >> 1).collect() } else { vec![] };
        let subs: Vec<(&[i64], u32)> = match mode {
            Mode::Plain => part.iter().map(|p| (*p, bits)).collect(),
            Mode::LeftSide => vec![(part[0], bits), (&side, bits + 1)],
            Mode::SideRight => vec![(&side, bits + 1), (part[1], bits)],
            Mode::MidSide => vec![(&mid, bits), (&side, bits + 1)],
        };
        for (s, w) in subs {
            b.put(0, 1);
            if s.iter().all(|x| *x == s[0]) {
                b.put(0, 6); // constant
                b.put(0, 1);
                b.put(s[0], w);
            } else {
                b.put(1, 6); // verbatim
                b.put(0, 1);
                for x in s {
                    b.put(*x, w);
                }
            }
        }
        b.align();
        b.put(crc(&b.v.clone(), 0x8005, 16) as i64, 16);
        f.extend(b.v);
        k += 1;
        at += len;
    }
    f
}
fn flac_case(bits: u32, rate: u32, block: usize, mode: Mode, ch: usize, n: usize, known: bool) -> Result<bool, String> {
    let chans: Vec<Vec<i64>> = (0..ch).map(|c| if c % 3 == 2 { vec![c as i64 - 3; n] } else { values(bits as u16, n, c) }).collect();
    let full = (1i64 << (bits - 1)) as f64;
    let want: Vec<f64> = (0..n).map(|i| chans.iter().map(|c| c[i] as f64 / full).sum::<f64>() / ch as f64).collect();
    expect(read("flac", &flac(bits, rate, block, mode, &chans, known))?, &want, rate)
}

// ---------------------------------------------------------------- images
type Img = ImageBuffer<Rgb<u16>, Vec<u16>>;
/// (width, height, channel depth, big-endian samples) of a PNG file.
fn png_raw(p: &Path) -> Result<(u32, u32, u8, Vec<u8>), String> {
    let d = png::Decoder::new(std::fs::File::open(p).map_err(|x| x.to_string())?);
    let mut r = d.read_info().map_err(|x| format!("not a PNG file: {x}"))?;
    let i = r.info();
    if i.color_type != png::ColorType::Rgb {
        return Err(format!("colour type {:?}", i.color_type));
    }
    let (w, h, d) = (i.width, i.height, i.bit_depth as u8);
    let mut buf = vec![0; r.output_buffer_size()];
    r.next_frame(&mut buf).map_err(|x| x.to_string())?;
    Ok((w, h, d, buf))
}
fn samples(d: u8, raw: &[u8]) -> Vec<u16> {
    match d {
        16 => raw.chunks(2).map(|b| u16::from_be_bytes([b[0], b[1]])).collect(),
        _ => raw.iter().map(|b| *b as u16).collect(),
    }
}
fn image_of(w: u32, h: u32, base: usize) -> Img {
    // Every channel of every pixel has a value of its own; over all bases, all 65536 occur.
    ImageBuffer::from_fn(w, h, |x, y| {
        let k = base + (y * w + x) as usize * 3;
        Rgb([(k * 7919) as u16, ((k + 1) * 7919) as u16, ((k + 2) * 7919) as u16])
    })
}
/// The image whose pixel k has the k-th digit of `code`, to the base of the number of colours.
fn coded(w: u32, h: u32, mut code: usize, colours: &[[u16; 3]]) -> Img {
    let mut img = Img::new(w, h);
    for p in img.pixels_mut() {
        *p = Rgb(colours[code % colours.len()]);
        code /= colours.len();
    }
    img
}
/// Two that no eight bits tell apart, and black.
const COLOURS: [[u16; 3]; 4] = [[0, 0, 0], [0x1234, 0xff00, 0x80ff], [0x12ff, 0xffff, 0x8000], [0, 0, 0x0100]];
fn png_case(img: &Img, sixteen: bool) -> Result<bool, String> {
    let (w, h) = img.dimensions();
    let t = Tmp::new("png");
    // The file may exist already, and be longer.
    std::fs::write(&t.0, vec![0xa5u8; 4000 + (w * h) as usize]).unwrap();
    save_png(img, &t.0, if sixteen { PngDepth::Sixteen } else { PngDepth::Eight }).map_err(|x| x.to_string())?;
    let (gw, gh, d, raw) = png_raw(&t.0)?;
    if (gw, gh, d) != (w, h, if sixteen { 16 } else { 8 }) {
        return Err(format!("{gw}x{gh} with {d} bits"));
    }
    let want: Vec<u16> = img.as_raw().iter().map(|v| if sixteen { *v } else { v >> 8 }).collect();
    match samples(d, &raw).iter().zip(&want).position(|(a, b)| a != b) {
        Some(i) => Err(format!("pixel {},{} channel {} differs", (i / 3) as u32 % w, (i / 3) as u32 / w, i % 3)),
        None => Ok(true),
    }
}
fn attr(tag: &str, k: &str) -> Option<String> {
    let i = tag.find(&format!(" {k}="))? + k.len() + 2;
    let q = tag[i..].chars().next()?;
    tag[i + 1..].split(q).next().map(Into::into)
}
fn svg_case(img: &Img) -> Result<bool, String> {
    let (w, h) = img.dimensions();
    let t = Tmp::new("svg");
    std::fs::write(&t.0, vec![b'x'; 20000]).unwrap();
    save_svg(img, &t.0).map_err(|x| x.to_string())?;
    let text = std::fs::read_to_string(&t.0).map_err(|x| x.to_string())?;
    if !text.trim_start().starts_with('<') || !text.trim_end().ends_with("</svg>") && !text.trim_end().ends_with("/>") {
        return Err("not a complete SVG document".into());
    }
    let mut canvas = vec![None; (w * h) as usize];
    let mut root = false;
    for tag in text.split('<').skip(1) {
        let tag = tag.split('>').next().unwrap().replace('\n', " ");
        if tag.starts_with("svg") {
            root = true;
            let vb: Vec<f64> = attr(&tag, "viewBox").ok_or("no viewBox")?.split([' ', ',']).filter_map(|s| s.parse().ok()).collect();
            if vb != [0.0, 0.0, w as f64, h as f64] {
                return Err(format!("viewBox {vb:?}"));
            }
        } else if tag.starts_with("rect") {
            let num = |k: &str| attr(&tag, k).unwrap_or("0".into()).parse::<f64>().map_err(|_| format!("{k} of {tag}"));
            let (x, y, rw, rh) = (num("x")?, num("y")?, num("width")?, num("height")?);
            let c = attr(&tag, "fill").ok_or("no fill")?;
            if x < 0.0 || y < 0.0 || x + rw > w as f64 || y + rh > h as f64 || x.fract() + y.fract() + rw.fract() + rh.fract() != 0.0 {
                return Err(format!("rectangle {tag}"));
            }
            for yy in y as u32..(y + rh) as u32 {
                for xx in x as u32..(x + rw) as u32 {
                    canvas[(yy * w + xx) as usize] = Some(c.clone());
                }
            }
        }
    }
    if !root {
        return Err("no svg element".into());
    }
    for (i, p) in img.pixels().enumerate() {
        let want = format!("#{:02x}{:02x}{:02x}", p[0] >> 8, p[1] >> 8, p[2] >> 8);
        if canvas[i].as_deref().map(|c| c.to_ascii_lowercase()) != Some(want.clone()) {
            return Err(format!("pixel {},{}: {:?} instead of {want}", i as u32 % w, i as u32 / w, canvas[i]));
        }
    }
    Ok(w * h > 0)
}

// ---------------------------------------------------------------- the program
const MAPS: [(&str, Colormap); 7] = [
    ("fire", Colormap::Fire),
    ("legacy", Colormap::Legacy),
    ("gray", Colormap::Gray),
    ("viridis", Colormap::Viridis),
    ("plasma", Colormap::Plasma),
    ("inferno", Colormap::Inferno),
    ("rainbow", Colormap::Rainbow),
];
fn tool(args: &[&str]) -> (Option<i32>, String) {
    let exe = std::env::current_exe().unwrap().parent().unwrap().join("sanity-check");
    let o = std::process::Command::new(exe).args(args).current_dir(scratch()).output().expect("start sanity-check");
    (o.status.code(), String::from_utf8_lossy(&o.stderr).into_owned())
}
fn signal(n: usize, kind: usize) -> Vec<i64> {
    (0..n)
        .map(|i| {
            let x = match kind {
                0 => (i as f64 * 0.7).sin() * 0.6 + (i as f64 * i as f64 * 0.003).sin() * 0.3,
                1 => if i == n / 3 { 0.9 } else { 0.0 },
                2 => 0.0,
                _ => (i as f64 * 0.11).sin() * (i as f64 / n as f64),
            };
            (x * 32767.0) as i64
        })
        .collect()
}
/// Floating-point signals of more range than 16 bits: falling 3 dB a sample, and silence that
/// follows a click of every size.
fn wide(n: usize, kind: usize) -> Vec<f32> {
    (0..n)
        .map(|i| match kind {
            4 => (i as f32 * 2.1).cos() * 0.7f32.powi(i as i32),
            _ => if i % 40 == 7 { 10f32.powi(-((i / 40) as i32) * 2) } else { 0.0 },
        })
        .collect()
}
struct Opt {
    n: usize,
    kind: usize,
    win: Option<usize>,
    map: Option<usize>,
    log: Option<bool>,
    range: Option<f32>,
    sixteen: Option<bool>,
}
fn program(o: &Opt) -> Result<bool, String> {
    let (x, file) = if o.kind < 4 {
        let v = signal(o.n, o.kind);
        (v.iter().map(|s| *s as f32 / 32767.0).collect::<Vec<f32>>(), wav(1, 16, 1, 8000, &pack(16, &v)))
    } else {
        let v = wide(o.n, o.kind);
        let data: Vec<u8> = v.iter().flat_map(|x| x.to_le_bytes()).collect();
        (v, wav(3, 32, 1, 8000, &data))
    };
    let input = Tmp::with("wav", &file);
    let out = Tmp::new("png");
    let mut args: Vec<String> = vec![input.0.display().to_string(), out.0.display().to_string()];
    let mut opt = |k: &str, v: Option<String>| {
        if let Some(v) = v {
            args.extend([format!("--{k}"), v]);
        }
    };
    opt("colormap", o.map.map(|m| MAPS[m].0.into()));
    opt("win-len", o.win.map(|m| m.to_string()));
    opt("scale-mode", o.log.map(|l| if l { "log".into() } else { "linear".into() }));
    opt("dynamic-range", o.range.map(|l| l.to_string()));
    opt("png-depth", o.sixteen.map(|l| if l { "sixteen".into() } else { "eight".into() }));
    let (code, err) = tool(&args.iter().map(|s| s.as_str()).collect::<Vec<_>>());
    let at = |s: String| format!("{s} (stderr: {})", err.lines().next().unwrap_or(""));
    if code == Some(101) || code.is_none() {
        return Err(at(format!("exit status {code:?}")));
    }
    let win = o.win.unwrap_or(1024);
    let hop = win / 2;
    if hop == 0 || o.n == 0 {
        // Nothing can be drawn.
        return if code == Some(0) { Err(at("reported success without an image".into())) } else { Ok(false) };
    }
    if code != Some(0) {
        return Err(at(format!("exit status {code:?}")));
    }
    let (mags, max) = stft_magnitudes(&x, win, hop).map_err(|x| format!("{x:?}"))?;
    let (w, h) = (o.n.div_ceil(hop), win / 2);
    let (gw, gh, d, raw) = png_raw(&out.0).map_err(at)?;
    if (gw as usize, gh as usize, d) != (w, h, if o.sixteen == Some(true) { 16 } else { 8 }) {
        return Err(at(format!("an image of {gw}x{gh} with {d} bits instead of {w}x{h}")));
    }
    let got = samples(d, &raw);
    let map = MAPS[o.map.unwrap_or(5)].1;
    let floor = -o.range.unwrap_or(120.0);
    for (t, m) in mags.iter().enumerate() {
        let col = if o.log == Some(true) { log_scale_bins(&m[..h], h - 1) } else { m[..h].to_vec() };
        for (f, v) in col.iter().enumerate() {
            // Time runs to the right, frequency upwards.
            let at = ((h - 1 - f) * w + t) * 3;
            let near: Vec<[u16; 3]> = [1.0f32, 1.0 - 1e-4, 1.0 + 1e-4].iter().map(|s| color_from_magnitude_u16(v * s, max, floor, map)).collect();
            for c in 0..3 {
                let step = if d == 16 { 257 } else { 1 };
                let level = |p: &[u16; 3]| if d == 16 { p[c] } else { p[c] >> 8 };
                let lo = near.iter().map(level).min().unwrap().saturating_sub(step);
                let hi = near.iter().map(level).max().unwrap().saturating_add(step);
                if got[at + c] < lo || got[at + c] > hi {
                    return Err(format!("frame {t}, bin {f}, channel {c}: {} instead of {lo}..={hi}", got[at + c]));
                }
            }
        }
    }
    Ok(true)
}

fn run(eng: &Eng) {
    let (nch, nlen, nfl) = eng.pick3((3, 8, 20), (8, 40, 60), (16, 120, 300));
    let size = eng.pick3(4, 12, 24);
    let (two, four) = eng.pick((9u32, 5u32), (14, 7));
    eng.note("bounds", format!("WAV: 8/16/24/32-bit and float, 1..={nch} channels x 0..={nlen} frames, every 8- and 16-bit value, every truncation and byte of small files; FLAC: 5 depths x channels x 1..={nfl} samples x block sizes x stereo modes; images up to {size}x{size} and all channel values, every image of up to {two} pixels over 2 colours and of up to {four} over 4; program: windows x maps x scales x depths"));
    let mut units: Vec<Unit> = vec![];
    for bits in [8u16, 16, 24, 32] {
        units.push(Box::new(move |cx| {
            for ch in 1..=nch as u16 {
                for n in 0..=nlen {
                    let rate = [8000, 44100, 48000, 96000, 1][n % 5];
                    cx.case(|| format!("wav/{bits}bit/channels={ch}/frames={n}"), || wav_case(bits, ch, rate, &values(bits, n * ch as usize, n)));
                }
            }
            if bits <= 16 {
                let all: Vec<i64> = (-(1i64 << (bits - 1))..1 << (bits - 1)).collect();
                for ch in 1..=2 {
                    cx.case(|| format!("wav/{bits}bit/channels={ch}/every value"), || wav_case(bits, ch, 8000, &all));
                }
            }
        }));
    }
    units.push(Box::new(move |cx| {
        for ch in 1..=nch as u16 {
            for n in 0..=nlen {
                cx.case(
                    || format!("wav/float/channels={ch}/frames={n}"),
                    || {
                        let v: Vec<f32> = (0..n * ch as usize).map(|i| [0.5, -1.0, 1.0, 1.5, -0.0, 1e-30, 0.1, -3.25][(i * 3 + n) % 8]).collect();
                        let data: Vec<u8> = v.iter().flat_map(|x| x.to_le_bytes()).collect();
                        expect(read("wav", &wav(3, 32, ch, 22050, &data))?, &mono(&v.iter().map(|x| *x as f64).collect::<Vec<_>>(), ch as usize), 22050)
                    },
                );
            }
        }
        // The suffix tells nothing about case; other suffixes find the format by content.
        for ext in ["WAV", "Wav"] {
            cx.case(
                || format!("wav/suffix/{ext}"),
                || {
                    let v = values(16, 30, 1);
                    let want: Vec<f64> = v.iter().map(|x| *x as f64 / 32767.0).collect();
                    expect(read(ext, &wav(1, 16, 1, 8000, &pack(16, &v)))?, &want, 8000)
                },
            );
        }
    }));
    // Torn and corrupted files: an error or a prefix, never a panic, never more than there is.
    for (name, ext, file, total) in [
        ("mono", "wav", wav(1, 16, 1, 8000, &pack(16, &values(16, 12, 3))), 12usize),
        ("stereo24", "wav", wav(1, 24, 2, 8000, &pack(24, &values(24, 16, 3))), 8),
        ("float", "wav", wav(3, 32, 1, 8000, &[0u8, 0, 128, 63].repeat(5)), 5),
        ("mono", "flac", flac(16, 8000, 16, Mode::Plain, &[values(16, 40, 2)], true), 40),
        ("stereo", "flac", flac(16, 8000, 16, Mode::MidSide, &[values(16, 33, 2), values(16, 33, 5)], true), 33),
    ] {
        let whole = read(ext, &file);
        let file2 = file.clone();
        let len = file.len();
        units.push(Box::new(move |cx| {
            for cut in 0..len {
                cx.case(
                    || format!("torn/{ext}/{name}/{cut}"),
                    || {
                        let (w, _) = whole.as_ref().map_err(|m| m.clone())?;
                        match read(ext, &file[..cut]) {
                            Err(_) => Ok(true),
                            Ok((v, _)) => {
                                if v.len() > total || v.iter().zip(w).any(|(a, b)| a.to_bits() != b.to_bits()) {
                                    return Err(format!("{} samples that are no prefix of the file's {total}", v.len()));
                                }
                                if ext == "wav" {
                                    return Err("a file that ends before the samples it declares was accepted".into());
                                }
                                Ok(true)
                            }
                        }
                    },
                );
            }
        }));
        for part in 0..8 {
            let file2 = file2.clone();
            units.push(Box::new(move |cx| {
                for at in (part..file2.len()).step_by(8) {
                    for b in 0..=255u8 {
                        if file2[at] == b {
                            continue;
                        }
                        cx.case(
                            || format!("corrupt/{ext}/{name}/{at}={b}"),
                            || {
                                let mut f = file2.clone();
                                f[at] = b;
                                let _ = read(ext, &f);
                                Ok(true)
                            },
                        );
                    }
                }
            }));
        }
    }
    for bits in [8u32, 12, 16, 20, 24] {
        units.push(Box::new(move |cx| {
            for ch in 1..=nch.min(8) {
                for n in 1..=nfl {
                    for block in [16, 17, 50] {
                        let modes: &[Mode] = if ch == 2 { &[Mode::Plain, Mode::LeftSide, Mode::SideRight, Mode::MidSide] } else { &[Mode::Plain] };
                        for mode in modes {
                            for known in [true, false] {
                                if known || n % 7 == 3 {
                                    cx.case(
                                        || format!("flac/{bits}bit/{mode:?}/channels={ch}/samples={n}/block={block}/known={known}"),
                                        || flac_case(bits, [8000, 44100, 96000][n % 3], block, *mode, ch, n, known),
                                    );
                                }
                            }
                        }
                    }
                }
            }
        }));
    }
    for w in 1..=size {
        units.push(Box::new(move |cx| {
            for h in 1..=size {
                for s in [false, true] {
                    cx.case(|| format!("png/{w}x{h}/sixteen={s}"), || png_case(&image_of(w, h, (w * 100 + h) as usize), s));
                }
                cx.case(|| format!("svg/{w}x{h}"), || svg_case(&image_of(w, h, (w * 100 + h) as usize)));
            }
        }));
    }
    // Every image over a few colours.
    for w in 1..=two {
        units.push(Box::new(move |cx| {
            for h in 1..=two / w {
                for (cols, most) in [(2usize, two), (4, four)] {
                    if w * h > most {
                        continue;
                    }
                    for code in 0..cols.pow(w * h) {
                        let img = coded(w, h, code, &COLOURS[..cols]);
                        cx.case(|| format!("svg/{w}x{h}/{cols} colours/{code}"), || svg_case(&img));
                        for s in [false, true] {
                            cx.case(|| format!("png/{w}x{h}/{cols} colours/{code}/sixteen={s}"), || png_case(&img, s));
                        }
                    }
                }
            }
        }));
    }
    units.push(Box::new(move |cx| {
        for s in [false, true] {
            cx.case(|| format!("png/150x150/sixteen={s}/every value"), || png_case(&image_of(150, 150, 0), s));
            cx.case(|| format!("png/1x3000/sixteen={s}"), || png_case(&image_of(1, 3000, 5), s));
            cx.case(|| format!("png/3000x1/sixteen={s}"), || png_case(&image_of(3000, 1, 5), s));
        }
        cx.case(|| "svg/150x150/every value".into(), || svg_case(&image_of(150, 150, 0)));
        // A place that cannot be written is an error.
        cx.case(
            || "save/nowhere".into(),
            || {
                let img = image_of(2, 2, 0);
                let p = scratch().join("no such directory").join("x");
                if save_png(&img, &p, PngDepth::Eight).is_ok() || save_svg(&img, &p).is_ok() || read_audio(&p).is_ok() || read_audio(&scratch()).is_ok() {
                    return Err("a missing directory was not reported".into());
                }
                Ok(true)
            },
        );
        cx.case(
            || "save/full".into(),
            || {
                let p = Path::new("/dev/full");
                if !p.exists() {
                    return Ok(false);
                }
                let img = image_of(60, 60, 0);
                if save_png(&img, p, PngDepth::Sixteen).is_ok() {
                    return Err("save_png to a full device reported success".into());
                }
                if save_svg(&img, p).is_ok() {
                    return Err("save_svg to a full device reported success".into());
                }
                Ok(true)
            },
        );
    }));
    // The program.
    for kind in 0..4usize {
        for log in [false, true] {
            units.push(Box::new(move |cx| {
                for m in 0..7 {
                    for win in [2usize, 3, 4, 7, 8, 16, 33, 64] {
                        for sixteen in [false, true] {
                            for n in [1usize, 5, 64, 200] {
                                let o = Opt { n, kind, win: Some(win), map: Some(m), log: Some(log), range: [None, Some(40.0), Some(90.0)][(n + win) % 3], sixteen: Some(sixteen) };
                                cx.case(|| format!("program/signal{kind}/log={log}/{}/win={win}/n={n}/sixteen={sixteen}/range={:?}", MAPS[m].0, o.range), || program(&o));
                            }
                        }
                    }
                }
            }));
        }
    }
    // Every dynamic range.
    let step = eng.pick3(40, 5, 1);
    for kind in 0..6usize {
        for log in [false, true] {
            units.push(Box::new(move |cx| {
                for win in [8usize, 16, 64] {
                    for range in (1..=300).map(|i| i as f32 * step as f32).filter(|r| *r <= 300.0).chain([0.5, 1000.0]) {
                        let o = Opt { n: 400, kind, win: Some(win), map: Some(2), log: Some(log), range: Some(range), sixteen: Some(true) };
                        cx.case(|| format!("program/range/signal{kind}/log={log}/win={win}/range={range}"), || program(&o));
                    }
                }
            }));
        }
    }
    units.push(Box::new(move |cx| {
        for n in [0usize, 1, 511, 512, 513, 1024, 3000] {
            let o = Opt { n, kind: 0, win: None, map: None, log: None, range: None, sixteen: None };
            cx.case(|| format!("program/defaults/n={n}"), || program(&o));
        }
        for win in [0usize, 1, 2, 3] {
            for n in [0usize, 1, 2, 9] {
                for log in [false, true] {
                    let o = Opt { n, kind: 0, win: Some(win), map: None, log: Some(log), range: None, sixteen: None };
                    cx.case(|| format!("program/short/win={win}/n={n}/log={log}"), || program(&o));
                }
            }
        }
        for range in [0.0f32, -20.0, 1e-3, 1e9, f32::MAX] {
            cx.case(
                || format!("program/range={range}"),
                || {
                    let v = signal(100, 0);
                    let input = Tmp::with("wav", &wav(1, 16, 1, 8000, &pack(16, &v)));
                    let out = Tmp::new("png");
                    let (c, err) = tool(&[input.0.to_str().unwrap(), out.0.to_str().unwrap(), "--win-len", "8", &format!("--dynamic-range={range}")]);
                    match c {
                        None | Some(101) => Err(format!("exit status {c:?}: {err}")),
                        _ => Ok(true),
                    }
                },
            );
        }
        for (name, content) in [("empty", vec![]), ("text", b"hello".to_vec()), ("header", wav(1, 16, 1, 8000, &[])[..30].to_vec()), ("zeros", vec![0; 500])] {
            for ext in ["wav", "flac", "mp3", "bin"] {
                cx.case(
                    || format!("program/bad input/{name}.{ext}"),
                    || {
                        let input = Tmp::with(ext, &content);
                        let out = Tmp::new("png");
                        match tool(&[input.0.to_str().unwrap(), out.0.to_str().unwrap()]).0 {
                            Some(0) => Err("reported success".into()),
                            None | Some(101) => Err("did not report the error".into()),
                            _ => Ok(true),
                        }
                    },
                );
            }
        }
        cx.case(
            || "program/bad output".into(),
            || {
                let input = Tmp::with("wav", &wav(1, 16, 1, 8000, &pack(16, &signal(100, 0))));
                let out = scratch().join("no such directory").join("x.png");
                match tool(&[input.0.to_str().unwrap(), out.to_str().unwrap()]).0 {
                    Some(0) | None | Some(101) => Err("a missing directory was not reported".into()),
                    _ => Ok(true),
                }
            },
        );
    }));
    eng.run_units(units);
}

fn main() {
    kmc_engine::main_with(&[DEF]);
}

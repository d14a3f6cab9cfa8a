//! C27: the web application shows the spectrogram the library computes: its bindings hand through
//! the library's answers, its frame stream is the short-time spectrum of what was pushed, its page
//! draws every magnitude at its place and its server serves exactly its own files.
use kmc_engine::refs;
use kmc_engine::*;
use kofft::visual::spectrogram as sp;
use kofft::visual::spectrogram::Colormap as K;
use std::collections::HashMap;
use std::io::{Read, Write};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use web_spectrogram::*;

pub const DEF: CheckDef = CheckDef {
    id: "C27",
    level: Level::Model,
    rule: "one case = 'stream' (signal, sequence of push sizes, colour maps and resets) replayed against an automaton (samples held, frames returned, colour map), 'binding' (function, arguments) against the library, 'page' (canvas kinds, sizes, sequence of selected files, order of their reading and decoding) in node against a model of the document and of WebGL, 'worker' (cache and network state), 'server' (method, path) against the directory it serves",
    assumptions: &["a canvas gives out one kind of context for life", "the bindings run natively, not as WebAssembly", "a WebGL 1 context offers float textures, a WebGL 2 context those of the specification; the graphics processor is a model of the specification"],
    hang_s: 300,
    run,
};

const WIN: usize = 1024;
const HOP: usize = 512;
const MAPS: [(K, &str); 7] = [(K::Fire, "fire"), (K::Legacy, "legacy"), (K::Gray, "gray"), (K::Viridis, "viridis"), (K::Plasma, "plasma"), (K::Inferno, "inferno"), (K::Rainbow, "rainbow")];
fn bound(k: K) -> Colormap {
    match k {
        K::Fire => Colormap::Fire,
        K::Legacy => Colormap::Legacy,
        K::Gray => Colormap::Gray,
        K::Viridis => Colormap::Viridis,
        K::Plasma => Colormap::Plasma,
        K::Inferno => Colormap::Inferno,
        K::Rainbow => Colormap::Rainbow,
    }
}

// ------------------------------------------------------------------ frame stream
fn sample(kind: usize, i: usize) -> f32 {
    match kind {
        0 => {
            let mut s = (i as u64 + 1).wrapping_mul(0x9e37_79b9_7f4a_7c15);
            s ^= s >> 29;
            s = s.wrapping_mul(0xbf58_476d_1ce4_e5b9);
            s ^= s >> 32;
            (s & 0xffff) as f32 / 32768.0 - 1.0
        }
        // louder and louder, then quiet
        1 => (if i % 4000 < 2600 { 1.0 + (i / 300) as f32 } else { 0.01 }) * ((i * i % 97) as f32 / 48.0 - 1.0),
        2 => 0.0,
        _ => (2.0 * std::f64::consts::PI * (i % 64) as f64 * 5.0 / 64.0).sin() as f32,
    }
}
/// For frame k of a stream: the (lowest, highest) colour of every component of every bin, per map.
struct Rows {
    rows: Vec<Vec<Vec<[(u8, u8); 3]>>>,
}
fn colour_range(m: K, lo: f64, hi: f64) -> [(u8, u8); 3] {
    let mut r = [(255u8, 0u8); 3];
    // Finely enough that no turn of the colour map falls between two points.
    let steps = 8 + ((hi - lo) * 1024.0) as usize;
    for i in 0..=steps {
        let c = sp::map_color_u8((lo + (hi - lo) * i as f64 / steps as f64) as f32, m);
        for j in 0..3 {
            r[j] = (r[j].0.min(c[j].saturating_sub(1)), r[j].1.max(c[j].saturating_add(1)));
        }
    }
    r
}
impl Rows {
    fn new(kind: usize, frames: usize) -> Rows {
        let (mut lo_max, mut hi_max) = (1e-12f64, 1e-12f64);
        let mut rows = vec![];
        for k in 0..frames {
            let x: Vec<refs::C> = (0..WIN)
                .map(|i| {
                    let w = 0.5 - 0.5 * (2.0 * std::f64::consts::PI * i as f64 / WIN as f64).cos();
                    (sample(kind, k * HOP + i) as f64 * w, 0.0)
                })
                .collect();
            let y = refs::fft(&x);
            let err = 3e-5 * refs::norm2(&x);
            let mut per: Vec<Vec<[(u8, u8); 3]>> = vec![vec![]; 7];
            for c in &y[..WIN / 2] {
                let m = c.0.hypot(c.1);
                let (a, b) = ((m - err).max(0.0), m + err);
                lo_max = lo_max.max(a);
                hi_max = hi_max.max(b);
                let t = |m: f64, max: f64| {
                    let db = if m <= 0.0 { -80.0 } else { (20.0 * (m / max).log10()).max(-80.0) };
                    ((db + 80.0) / 80.0).min(1.0)
                };
                let (tl, th) = (t(a, hi_max) - 1e-4, t(b, lo_max) + 1e-4);
                for (i, (map, _)) in MAPS.iter().enumerate() {
                    per[i].push(colour_range(*map, tl, th));
                }
            }
            rows.push(per);
        }
        Rows { rows }
    }
}
#[derive(Clone, Copy, Debug)]
enum Ev {
    Push(usize),
    Map(usize),
    Reset,
}
/// The automaton: samples held, position in the signal, frames returned, colour map.
#[derive(Clone, Hash, PartialEq, Eq)]
struct Model {
    held: usize,
    at: usize,
    frames: usize,
    map: usize,
}
const OTHER_NAMES: [&str; 4] = ["", "GRAY", "no such map", "Rainbow "];
fn stream(cx: &Cx, kind: usize, rows: &Rows, evs: &[Ev]) -> Result<bool, String> {
    reset_state();
    let mut m = Model { held: 0, at: 0, frames: 0, map: 6 };
    let mut any = false;
    for (step, ev) in evs.iter().enumerate() {
        match *ev {
            Ev::Push(n) => {
                let x: Vec<f32> = (m.at..m.at + n).map(|i| sample(kind, i)).collect();
                m.at += n;
                m.held += n;
                let row = compute_frame(&x);
                if m.held < WIN {
                    if !row.is_empty() {
                        return Err(format!("step {step}: {} bytes with {} samples held", row.len(), m.held));
                    }
                } else {
                    let want = &rows.rows[m.frames][m.map];
                    if row.len() != 4 * want.len() {
                        return Err(format!("step {step}: {} bytes instead of {}", row.len(), 4 * want.len()));
                    }
                    for (b, (got, w)) in row.chunks(4).zip(want).enumerate() {
                        if got[3] != 255 || (0..3).any(|i| got[i] < w[i].0 || got[i] > w[i].1) {
                            return Err(format!("step {step}: frame {}, bin {b}: {got:?} instead of {w:?}", m.frames));
                        }
                    }
                    m.held -= HOP;
                    m.frames += 1;
                    any = true;
                }
            }
            Ev::Map(i) => {
                let name = if i < 7 { MAPS[i].1 } else { OTHER_NAMES[i - 7] };
                set_colormap(name);
                m.map = match i {
                    8 => 2,
                    i if i >= 7 => 0,
                    i => i,
                };
            }
            Ev::Reset => {
                reset_state();
                m = Model { held: 0, at: 0, frames: 0, map: 6 };
            }
        }
        cx.state(&(kind, &m));
    }
    cx.transitions(evs.len() as u64);
    cx.trace();
    Ok(any)
}
fn name(evs: &[Ev]) -> String {
    evs.iter()
        .map(|e| match e {
            Ev::Push(n) => n.to_string(),
            Ev::Map(i) => format!("m{i}"),
            Ev::Reset => "r".into(),
        })
        .collect::<Vec<_>>()
        .join(",")
}
fn sequences(cx: &Cx, kind: usize, rows: &Rows, alphabet: &[Ev], first: usize, depth: usize) {
    let k = alphabet.len();
    for code in 0..k.pow(depth as u32 - 1) {
        let mut evs = vec![alphabet[first]];
        let mut c = code;
        for _ in 1..depth {
            evs.push(alphabet[c % k]);
            c /= k;
        }
        cx.case(|| format!("stream/signal{kind}/{}", name(&evs)), || stream(cx, kind, rows, &evs));
    }
}

// ------------------------------------------------------------------ bindings
fn bits(v: &[f32]) -> Vec<u32> {
    v.iter().map(|x| x.to_bits()).collect()
}
fn f(v: Vec<f64>) -> Vec<f32> {
    v.into_iter().map(|x| x as f32).collect()
}
fn bindings(cx: &Cx, nmax: usize) {
    for n in 0..=nmax {
        for win in [1usize, 2, 3, 4, 7, 8, 12, 16, 32] {
            for hop in 1..=win + 3 {
                cx.case(
                    || format!("binding/stft/n={n}/window={win}/hop={hop}"),
                    || {
                        let x = f(refs::probe(n, 271));
                        let r = stft_magnitudes(&x, win, hop).map_err(|_| "unexpected error")?;
                        let (m, max) = sp::stft_magnitudes(&x, win, hop).map_err(|e| format!("{e:?}"))?;
                        let flat: Vec<f32> = m.concat();
                        if r.width() != m.len() || r.height() != win / 2 || bits(&r.mags()) != bits(&flat) || r.max_mag() != max {
                            return Err(format!("{}x{} {:?} instead of {}x{} {flat:?}", r.width(), r.height(), r.mags(), m.len(), win / 2));
                        }
                        Ok(n > 0)
                    },
                );
            }
        }
        cx.case(
            || format!("binding/transforms/n={n}"),
            || {
                let (x, y) = (f(refs::probe(n, 272)), f(refs::probe(n, 273)));
                if n > 0 {
                    let r = fft_split(&x, &y).map_err(|_| "unexpected error")?;
                    let (mut a, mut b) = (x.clone(), y.clone());
                    kofft::fft::fft_split(&mut a, &mut b).map_err(|e| format!("{e:?}"))?;
                    if bits(&r.re()) != bits(&a) || bits(&r.im()) != bits(&b) {
                        return Err("fft_split differs from the library".into());
                    }
                }
                if bits(&dct2(&x)) != bits(&kofft::dct::dct2(&x)) {
                    return Err("dct2 differs from the library".into());
                }
                if n % 2 == 0 {
                    let r = haar_forward(&x);
                    let (a, d) = kofft::wavelet::haar_forward(&x);
                    if bits(&r.avg()) != bits(&a) || bits(&r.diff()) != bits(&d) {
                        return Err("haar_forward differs from the library".into());
                    }
                }
                if bits(&haar_inverse(&x, &y)) != bits(&kofft::wavelet::haar_inverse(&x, &y)) {
                    return Err("haar_inverse differs from the library".into());
                }
                Ok(n > 0)
            },
        );
    }
    for (map, mname) in MAPS {
        cx.case(
            || format!("binding/colours/{mname}"),
            || {
                for i in -20..=1044 {
                    let t = i as f32 / 1024.0;
                    if map_color_u8(t, bound(map)) != sp::map_color_u8(t, map) {
                        return Err(format!("map_color_u8({t})"));
                    }
                }
                for mag in [0.0f32, 1e-9, 1e-4, 0.01, 0.3, 0.5, 1.0, 7.0] {
                    for max in [0.0f32, 1e-12, 0.5, 1.0, 7.0, 1e6] {
                        for floor in [-120.0f32, -80.0, -60.0, -1.0] {
                            if color_from_magnitude_u8(mag, max, floor, bound(map)) != sp::color_from_magnitude_u8(mag, max, floor, map) {
                                return Err(format!("color_from_magnitude_u8({mag}, {max}, {floor})"));
                            }
                            if magnitude_to_db(mag, max, floor).to_bits() != sp::magnitude_to_db(mag, max, floor).to_bits() {
                                return Err(format!("magnitude_to_db({mag}, {max}, {floor})"));
                            }
                            if db_scale(mag, max, -floor).to_bits() != sp::db_scale(mag, max, -floor).to_bits() {
                                return Err(format!("db_scale({mag}, {max}, {})", -floor));
                            }
                        }
                    }
                }
                Ok(true)
            },
        );
    }
}

// ------------------------------------------------------------------ page
fn verif() -> PathBuf {
    PathBuf::from(std::env::var("KMC_VERIF").unwrap_or_else(|_| "/verif".into()))
}
const WEB: &str = "/repo/web-spectrogram";
fn remove(d: &Path) {
    assert!(d.starts_with(scratch()));
    let _ = std::fs::remove_dir_all(d);
}
fn copy_of(name: &str) -> Result<PathBuf, String> {
    let d = scratch().join(format!("{name}-{}", std::process::id()));
    remove(&d);
    for p in ["pkg", "tests/pkg"] {
        std::fs::create_dir_all(d.join(p)).map_err(|e| e.to_string())?;
        std::fs::copy(verif().join("mc-web/src/wasm_stub.mjs"), d.join(p).join("web_spectrogram.js")).map_err(|e| e.to_string())?;
    }
    std::fs::write(d.join("package.json"), "{\"type\":\"module\"}").map_err(|e| e.to_string())?;
    let rainbow: Vec<[u8; 3]> = (0..=4096).map(|i| sp::map_color_u8(i as f32 / 4096.0, K::Rainbow)).collect();
    std::fs::write(d.join("rainbow.json"), format!("{rainbow:?}")).map_err(|e| e.to_string())?;
    for p in ["app.mjs", "sw.js", "index.html", "manifest.json"] {
        std::fs::copy(format!("{WEB}/{p}"), d.join(p)).map_err(|e| format!("{p}: {e}"))?;
    }
    Ok(d)
}
/// Runs one group of cases in node: lines of `key TAB ok|vacuous|message`.
fn page(cx: &Cx, group: &str) {
    let mut lines: Vec<(String, Result<bool, String>)> = vec![];
    let whole = (|| {
        let d = copy_of(&format!("web-{}", group.replace('/', "-")))?;
        let o = Command::new("timeout")
            .args([if cx.quick() { "240" } else { "1800" }, "node"])
            .arg(verif().join("mc-web/src/page.mjs"))
            .arg(&d)
            .arg(group)
            .arg(if cx.quick() { "quick" } else { "thorough" })
            .stdin(Stdio::null())
            .output()
            .map_err(|e| format!("node: {e}"))?;
        remove(&d);
        for l in String::from_utf8_lossy(&o.stdout).lines() {
            if let Some((k, r)) = l.strip_prefix("#CASE\t").and_then(|l| l.split_once('\t')) {
                lines.push((k.to_string(), match r {
                    "ok" => Ok(true),
                    "vacuous" => Ok(false),
                    m => Err(m.to_string()),
                }));
            }
        }
        if !o.status.success() {
            let e = String::from_utf8_lossy(&o.stderr);
            return Err(format!("{}: {}", o.status, e.lines().find(|l| l.contains("Error")).unwrap_or(e.lines().next().unwrap_or(""))));
        }
        Ok(!lines.is_empty())
    })();
    cx.case(|| format!("page/{group}/runs"), || whole.clone());
    for (k, r) in &lines {
        cx.case(|| k.clone(), || r.clone());
    }
}

// ------------------------------------------------------------------ server
struct Reply {
    code: u16,
    head: String,
    body: Vec<u8>,
}
fn request(method: &str, path: &str, origin: bool) -> Result<Reply, String> {
    let mut s = std::net::TcpStream::connect("127.0.0.1:3000").map_err(|e| e.to_string())?;
    s.set_read_timeout(Some(std::time::Duration::from_secs(20))).ok();
    let o = if origin { "Origin: http://example.com\r\n" } else { "" };
    write!(s, "{method} {path} HTTP/1.1\r\nHost: localhost\r\n{o}Connection: close\r\nContent-Length: 0\r\n\r\n").map_err(|e| e.to_string())?;
    let mut v = vec![];
    s.read_to_end(&mut v).map_err(|e| e.to_string())?;
    let at = v.windows(4).position(|w| w == b"\r\n\r\n").ok_or("no header")?;
    let head = String::from_utf8_lossy(&v[..at]).to_lowercase();
    let code = head.split(' ').nth(1).and_then(|c| c.parse().ok()).ok_or("no status")?;
    Ok(Reply { code, body: v[at + 4..].to_vec(), head })
}
fn serve(cx: &Cx) {
    let d = scratch().join(format!("server-{}", std::process::id()));
    remove(&d);
    let files: [(&str, Vec<u8>); 9] = [
        ("index.html", b"<html>index</html>".to_vec()),
        ("app.mjs", b"export {}".to_vec()),
        ("sw.js", b"self".to_vec()),
        ("manifest.json", b"{}".to_vec()),
        ("empty.txt", vec![]),
        ("pkg/web_spectrogram.js", b"js".to_vec()),
        ("pkg/web_spectrogram_bg.wasm", (0..=255u8).cycle().take(100_000).collect()),
        ("sub/index.html", b"<html>sub</html>".to_vec()),
        ("with space.txt", b"space".to_vec()),
    ];
    let mut made = true;
    for (p, b) in &files {
        let f = d.join("static").join(p);
        made &= std::fs::create_dir_all(f.parent().unwrap()).is_ok() && std::fs::write(f, b).is_ok();
    }
    made &= std::fs::write(d.join("secret.txt"), "secret").is_ok() && std::fs::create_dir_all(d.join("static-2")).is_ok() && std::fs::write(d.join("static-2/secret.txt"), "secret").is_ok();
    let exe = std::env::current_exe().unwrap().with_file_name("web-server");
    let child = Command::new(exe).current_dir(&d).stdout(Stdio::null()).stderr(Stdio::null()).spawn();
    let mut up = Err("the server did not start".to_string());
    if let Ok(mut c) = child {
        for _ in 0..400 {
            up = request("GET", "/health", false).map(|_| true);
            if up.is_ok() || c.try_wait().map_or(true, |s| s.is_some()) {
                break;
            }
            std::thread::sleep(std::time::Duration::from_millis(25));
        }
        cx.case(|| "server/starts".into(), || if made { up.clone() } else { Err("cannot make the directory".into()) });
        if up.is_ok() {
            let table: HashMap<&str, &Vec<u8>> = files.iter().map(|(p, b)| (*p, b)).collect();
            let index = &files[0].1;
            for origin in [false, true] {
                let get = |method: &'static str, path: &str, want: Option<(&[u16], Option<&[u8]>)>| {
                    cx.case(
                        || format!("server/{method}/{path}/origin={origin}"),
                        || {
                            let r = request(method, path, origin)?;
                            if String::from_utf8_lossy(&r.body).contains("secret") {
                                return Err("served a file outside the directory".into());
                            }
                            if origin && r.code < 300 && !r.head.contains("access-control-allow-origin: *") {
                                return Err(format!("no cross-origin header: {}", r.head));
                            }
                            if let Some((codes, body)) = want {
                                if !codes.contains(&r.code) {
                                    return Err(format!("status {} instead of {codes:?}", r.code));
                                }
                                if let Some(b) = body {
                                    if r.body != b {
                                        return Err(format!("{} bytes ({:?}) instead of {}", r.body.len(), String::from_utf8_lossy(&r.body[..r.body.len().min(40)]), b.len()));
                                    }
                                }
                            }
                            Ok(true)
                        },
                    )
                };
                get("GET", "/health", Some((&[200], Some(b""))));
                get("GET", "/", Some((&[200], Some(index))));
                get("GET", "/?q=1", Some((&[200], Some(index))));
                get("GET", "/sub/", Some((&[200], Some(&files[7].1))));
                get("GET", "/with%20space.txt", Some((&[200], Some(&files[8].1))));
                for (p, b) in &table {
                    if !p.contains(' ') {
                        get("GET", &format!("/{p}"), Some((&[200], Some(b))));
                        get("HEAD", &format!("/{p}"), Some((&[200], Some(b""))));
                        get("GET", &format!("/{p}?v=2"), Some((&[200], Some(b))));
                        for m in ["POST", "PUT", "DELETE"] {
                            get(m, &format!("/{p}"), Some((&[405], None)));
                        }
                    }
                }
                // Every path of up to three unknown or known segments that names no file.
                let segs = ["missing", "pkg", "sub", "app.mjs.bak", "health", "%20"];
                for a in segs {
                    for b in ["", "x", "missing", "web_spectrogram.ts"] {
                        for c in ["", "y.js"] {
                            let p = [a, b, c].into_iter().filter(|s| !s.is_empty()).collect::<Vec<_>>().join("/");
                            if ["health", "sub", "pkg"].contains(&p.as_str()) {
                                continue;
                            }
                            get("GET", &format!("/{p}"), Some((&[200], Some(index))));
                        }
                    }
                }
                // Ways out of the directory.
                for up in ["..", "%2e%2e", "..%2f", "%2e%2e%2f", ".%2e", "..%5c", "....//", ".%00."] {
                    for pre in ["", "pkg/", "pkg/../", "missing/"] {
                        for rest in ["secret.txt", "static-2/secret.txt", "../secret.txt", "../../etc/hostname"] {
                            get("GET", &format!("/{pre}{up}/{rest}"), None);
                        }
                    }
                }
            }
        }
        let _ = c.kill();
        let _ = c.wait();
    } else {
        cx.case(|| "server/starts".into(), || Err("cannot start the server".into()));
    }
    remove(&d);
}

fn run(eng: &Eng) {
    let (depth, deep) = eng.pick((5, 8), (6, 10));
    let sizes = [0usize, 1, 511, 512, 513, 1023, 1024, 1025, 1600, 3000];
    eng.note("bounds", format!("frame stream: every sequence of {depth} pushes of {sizes:?} and of {deep} events of a smaller alphabet with every colour map and reset, four signals; page: every canvas of up to 8x8, every kind of canvas, every sequence of up to 3 / 4 selections, every interleaving of the steps of up to 3 / 4 overlapping ones; server: every path of a list, every way of writing '..'"));
    let rows: Vec<Rows> = (0..4).map(|k| Rows::new(k, 70)).collect();
    let rows = &rows;
    let mut units: Vec<Unit> = vec![];
    for kind in 0..4 {
        let alphabet: &'static [Ev] = sizes.map(Ev::Push).to_vec().leak();
        for first in 0..alphabet.len() {
            let depth = if kind == 0 { depth } else { depth - 1 };
            units.push(Box::new(move |cx| sequences(cx, kind, &rows[kind], alphabet, first, depth)));
        }
        let small: &'static [Ev] = Box::leak(Box::new([Ev::Push(700), Ev::Push(1024), Ev::Map(0), Ev::Reset]));
        for first in 0..small.len() {
            let d = if kind == 0 { deep } else { deep - 2 };
            units.push(Box::new(move |cx| sequences(cx, kind, &rows[kind], small, first, d)));
        }
        units.push(Box::new(move |cx| {
            // Colour maps change nothing but the colours of what follows.
            for a in 0..11 {
                for b in 0..11 {
                    for n in 1..5 {
                        let mut evs = vec![Ev::Map(a)];
                        evs.extend((0..n).map(|_| Ev::Push(600)));
                        evs.push(Ev::Map(b));
                        evs.extend((0..4).map(|_| Ev::Push(600)));
                        cx.case(|| format!("stream/signal{kind}/{}", name(&evs)), || stream(cx, kind, &rows[kind], &evs));
                    }
                }
            }
            // Long streams, every constant push size.
            for n in (1..=1100usize).step_by(if cx.quick() { 7 } else { 1 }).chain([512, 1024]) {
                let evs: Vec<Ev> = (0..(33_000 / n).min(65)).map(|_| Ev::Push(n)).collect();
                cx.case(|| format!("stream/signal{kind}/{}x{n}", evs.len()), || stream(cx, kind, &rows[kind], &evs));
                let mut twice = evs.clone();
                twice.push(Ev::Reset);
                twice.extend(&evs);
                cx.case(|| format!("stream/signal{kind}/{}x{n},r,again", evs.len()), || stream(cx, kind, &rows[kind], &twice));
            }
        }));
    }
    let nmax = eng.pick(64, 200);
    units.push(Box::new(move |cx| bindings(cx, nmax)));
    for g in ["decibels", "canvas", "redraw", "contexts", "webgl", "overlap", "select", "select-browser", "buffer", "worker"] {
        units.push(Box::new(move |cx| page(cx, g)));
    }
    units.push(Box::new(serve));
    eng.run_units(units);
}

fn main() {
    kmc_engine::main_with(&[DEF]);
}

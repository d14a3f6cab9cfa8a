//! C15: the song index is a state machine over (files on disk, names known, contents known).
//!
//! The reachable states of a reference automaton are enumerated completely (breadth first, to the
//! fixed point); every transition is replayed against the real index, on real files, along the
//! shortest path that reaches its source state, and every answer on the way is compared.
use kmc_core::common::*;
use kofft::media::index::{SongId, SongIndex};
use std::collections::{HashMap, VecDeque};
use std::ffi::OsStr;
use std::os::unix::ffi::OsStrExt;
use std::path::{Path, PathBuf};

pub const DEF: CheckDef = CheckDef {
    id: "C15",
    level: Level::Model,
    rule: "one case = one transition of the automaton (operations: write content A/B to a file, remove it, put a directory in its place, index it, identify it), replayed from the initial state; plus every operation sequence up to a depth without merging states",
    assumptions: &["states of the index are merged when the automaton's are (names known, contents known); the unmerged sequences cover hidden state up to their depth", "BLAKE3 does not collide"],
    hang_s: 60,
    run,
};

/// Two files with the same name in different directories, one that shares only the stem, and one
/// whose name is not Unicode (such a file has no usable name).
const SLOTS: usize = 4;
fn slot(dir: &Path, s: usize) -> PathBuf {
    match s {
        0 => dir.join("a/s.wav"),
        1 => dir.join("b/s.wav"),
        2 => dir.join("a/s.mp3"),
        _ => dir.join("a").join(OsStr::from_bytes(b"\xffs.wav")),
    }
}
fn name_of(s: usize) -> Option<usize> {
    [Some(0), Some(0), Some(1), None][s]
}
/// Contents that differ only past the first 8 KiB.
fn content(c: u8) -> Vec<u8> {
    let mut v = vec![7u8; 8192 + 3];
    v[8193] = c;
    v
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
enum F {
    Missing,
    Dir,
    Has(u8),
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
struct M {
    fs: [F; SLOTS],
    names: [Option<u8>; 2],
    hashes: [Option<u8>; 3],
}
impl M {
    fn new() -> M {
        M { fs: [F::Missing; SLOTS], names: [None; 2], hashes: [None; 3] }
    }
}
#[derive(Clone, Copy, PartialEq, Eq, Hash)]
enum Op {
    Set(u8, F),
    Index(u8),
    Identify(u8),
}
impl std::fmt::Debug for Op {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        match self {
            Op::Set(s, F::Missing) => write!(f, "rm{s}"),
            Op::Set(s, F::Dir) => write!(f, "dir{s}"),
            Op::Set(s, F::Has(c)) => write!(f, "w{s}{}", (b'A' + c) as char),
            Op::Index(s) => write!(f, "index{s}"),
            Op::Identify(s) => write!(f, "identify{s}"),
        }
    }
}
/// What an operation answers: the identity of a slot, or an I/O error.
fn step(m: &mut M, op: Op) -> Option<Result<u8, ()>> {
    match op {
        Op::Set(s, f) => {
            m.fs[s as usize] = f;
            None
        }
        Op::Index(s) => {
            let F::Has(c) = m.fs[s as usize] else { return Some(Err(())) };
            if let Some(n) = name_of(s as usize) {
                m.names[n] = Some(s);
            }
            m.hashes[c as usize] = Some(s);
            Some(Ok(s))
        }
        Op::Identify(s) => {
            let n = name_of(s as usize);
            if let Some(id) = n.and_then(|n| m.names[n]) {
                return Some(Ok(id));
            }
            let F::Has(c) = m.fs[s as usize] else { return Some(Err(())) };
            if let Some(id) = m.hashes[c as usize] {
                return Some(Ok(id));
            }
            if let Some(n) = n {
                m.names[n] = Some(s);
            }
            m.hashes[c as usize] = Some(s);
            Some(Ok(s))
        }
    }
}
struct Disk {
    dir: PathBuf,
    fs: [F; SLOTS],
}
impl Disk {
    fn new() -> Disk {
        use std::sync::atomic::{AtomicUsize, Ordering};
        static N: AtomicUsize = AtomicUsize::new(0);
        let dir = scratch().join(format!("kmc-c15-{}-{}", std::process::id(), N.fetch_add(1, Ordering::SeqCst)));
        for d in ["a", "b"] {
            std::fs::create_dir_all(dir.join(d)).unwrap();
        }
        Disk { dir, fs: [F::Missing; SLOTS] }
    }
    fn set(&mut self, s: usize, f: F) {
        let p = slot(&self.dir, s);
        if self.fs[s] == f {
            return;
        }
        match self.fs[s] {
            F::Missing => {}
            F::Dir => std::fs::remove_dir(&p).unwrap(),
            F::Has(_) => std::fs::remove_file(&p).unwrap(),
        }
        match f {
            F::Missing => {}
            F::Dir => std::fs::create_dir(&p).unwrap(),
            F::Has(c) => std::fs::write(&p, content(c)).unwrap(),
        }
        self.fs[s] = f;
    }
}
impl Drop for Disk {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.dir);
    }
}
fn replay(cx: &Cx, disk: &mut Disk, ops: &[Op]) -> Result<bool, String> {
    for s in 0..SLOTS {
        disk.set(s, F::Missing);
    }
    let mut idx = SongIndex::new();
    let mut m = M::new();
    let mut ids: [Option<SongId>; SLOTS] = Default::default();
    let mut answers = 0;
    cx.trace();
    for (i, &op) in ops.iter().enumerate() {
        let want = step(&mut m, op);
        let got = match op {
            Op::Set(s, f) => {
                disk.set(s as usize, f);
                continue;
            }
            Op::Index(s) => idx.index_song(&slot(&disk.dir, s as usize)),
            Op::Identify(s) => idx.identify(&slot(&disk.dir, s as usize)),
        };
        answers += 1;
        let at = |w: String| format!("step {i} ({op:?}): {w}");
        match (got, want.unwrap()) {
            (Err(_), Err(())) => {}
            (Ok(id), Ok(w)) => {
                for (s, known) in ids.iter().enumerate() {
                    if let Some(k) = known {
                        if (*k == id) != (s == w as usize) {
                            return Err(at(format!("answered {id:?}, the song of file {w} was expected")));
                        }
                    }
                }
                if ids[w as usize].is_none() {
                    ids[w as usize] = Some(id);
                }
            }
            (g, w) => return Err(at(format!("{g:?} instead of {w:?}"))),
        }
    }
    Ok(answers > 0)
}
fn all_ops(contents: u8) -> Vec<Op> {
    let mut v = vec![];
    for s in 0..SLOTS as u8 {
        for c in 0..contents {
            v.push(Op::Set(s, F::Has(c)));
        }
        v.push(Op::Set(s, F::Missing));
        v.push(Op::Set(s, F::Dir));
        v.push(Op::Index(s));
        v.push(Op::Identify(s));
    }
    v
}
fn run(eng: &Eng) {
    let contents: u8 = eng.pick(2, 2);
    let ops = all_ops(contents);
    // The state graph of the automaton.
    let mut parent: HashMap<M, Option<(usize, Op)>> = HashMap::new();
    let mut order: Vec<M> = vec![M::new()];
    parent.insert(M::new(), None);
    let mut q: VecDeque<usize> = [0].into();
    let mut edges: Vec<(usize, Op)> = vec![];
    while let Some(i) = q.pop_front() {
        for &op in &ops {
            let mut m = order[i].clone();
            if let Op::Set(s, f) = op {
                if m.fs[s as usize] == f {
                    continue;
                }
            }
            step(&mut m, op);
            // Changes of the files only matter once something is asked: they are edges of the
            // graph, checked by the questions that follow them.
            if !matches!(op, Op::Set(..)) {
                edges.push((i, op));
            }
            if !parent.contains_key(&m) {
                parent.insert(m.clone(), Some((i, op)));
                order.push(m);
                q.push_back(order.len() - 1);
            }
        }
    }
    eng.note("automaton", format!("{} states, {} index/identify transitions, complete (fixed point)", order.len(), edges.len()));
    let (order, parent, edges) = (&order, &parent, &edges);
    let mut pre: Vec<Op> = vec![];
    for s in 0..SLOTS as u8 {
        pre.push(Op::Set(s, F::Has(s % 2)));
    }
    // All files present: questions, and a few changes, in every order.
    let mut small: Vec<Op> = (0..SLOTS as u8).flat_map(|s| [Op::Index(s), Op::Identify(s)]).collect();
    small.extend([Op::Set(0, F::Missing), Op::Set(1, F::Has(0)), Op::Set(3, F::Dir), Op::Set(2, F::Has(1))]);
    let (pre, small) = (&pre, &small);
    let mut units: Vec<Unit> = vec![];
    for chunk in (0..edges.len()).step_by(2000) {
        units.push(Box::new(move |cx| {
            let mut disk = Disk::new();
            for &(i, op) in &edges[chunk..(chunk + 2000).min(edges.len())] {
                let mut path = vec![op];
                let mut at = i;
                while let Some((p, o)) = parent[&order[at]] {
                    path.push(o);
                    at = p;
                }
                path.reverse();
                cx.state(&order[i]);
                cx.transitions(1);
                cx.case(|| format!("graph/{path:?}"), || replay(cx, &mut disk, &path));
            }
        }));
    }
    // Every sequence up to a depth, without merging.
    let depth = eng.pick(5, 6);
    eng.note("unmerged_depth", depth);
    for first in 0..small.len() {
        units.push(Box::new(move |cx| {
            let mut disk = Disk::new();
            let mut stack: Vec<Vec<Op>> = vec![vec![small[first]]];
            while let Some(p) = stack.pop() {
                if p.len() < depth {
                    for &o in small {
                        let mut n = p.clone();
                        n.push(o);
                        stack.push(n);
                    }
                    continue;
                }
                let mut ops = pre.clone();
                ops.extend(&p);
                cx.transitions(depth as u64);
                cx.case(|| format!("sequence/{p:?}"), || replay(cx, &mut disk, &ops));
            }
        }));
    }
    units.push(Box::new(contents_table));
    units.push(Box::new(names_table));
    units.push(Box::new(odd_paths));
    eng.run_units(units);
}
/// Contents are told apart at every size around the read and hash block sizes, at every position.
fn contents_table(cx: &Cx) {
    let disk = Disk::new();
    let (f, g) = (disk.dir.join("a/one"), disk.dir.join("b/two"));
    let sizes = [0usize, 1, 2, 63, 64, 65, 1023, 1024, 1025, 4096, 8191, 8192, 8193, 16383, 16384, 16385, 24576, 70000, 262145, 1 << 20, (1 << 20) + 1, (1 << 21) + 1, (1 << 23) + 7, (1 << 24) + 1];
    for n in sizes.into_iter().chain(if cx.quick() { vec![] } else { vec![(1 << 26) + 1, (1 << 28) + 1] }) {
        let base: Vec<u8> = (0..n).map(|i| (i * 31 % 251) as u8).collect();
        let mut variants: Vec<(String, Vec<u8>, bool)> = vec![("copy".into(), base.clone(), true)];
        for at in [0, 1, n / 2, n.wrapping_sub(1), 63, 64, 1024, 8191, 8192, 8193, 16384, 65536] {
            if at < n && (n < 1 << 20 || at > 1 << 18) {
                let mut v = base.clone();
                v[at] ^= 1;
                variants.push((format!("flip{at}"), v, false));
            }
        }
        let mut longer = base.clone();
        longer.push(0);
        variants.push(("longer".into(), longer, false));
        if n > 0 {
            variants.push(("shorter".into(), base[..n - 1].to_vec(), false));
        }
        for (vn, v, same) in variants {
            for first_by_identify in [false, true] {
                cx.case(
                    || format!("contents/{n}/{vn}/{first_by_identify}"),
                    || {
                        std::fs::write(&f, &base).unwrap();
                        std::fs::write(&g, &v).unwrap();
                        let mut idx = SongIndex::new();
                        let a = if first_by_identify { idx.identify(&f) } else { idx.index_song(&f) }.map_err(e)?;
                        let b = idx.identify(&g).map_err(e)?;
                        if (a == b) != same {
                            return Err(format!("{a:?} and {b:?}"));
                        }
                        if idx.index_song(&g).map_err(e)? == a {
                            return Err("index_song answered the identity of another file".into());
                        }
                        Ok(true)
                    },
                );
            }
        }
    }
    // Beyond 4 GiB: two holes with one byte at their ends.
    if !cx.quick() {
        let n = (1u64 << 32) + 5;
        cx.case(
            || format!("contents/{n}/holes"),
            || {
                use std::os::unix::fs::FileExt;
                for (p, c) in [(&f, 1u8), (&g, 2)] {
                    std::fs::File::create(p).and_then(|h| h.write_at(&[c], n - 1)).unwrap();
                }
                let mut idx = SongIndex::new();
                let a = idx.index_song(&f).map_err(e)?;
                let same = idx.identify(&g).map_err(e)? == a;
                std::fs::write(&f, []).and(std::fs::write(&g, [])).unwrap();
                if same { Err("a file that differs in its last byte is the same song".into()) } else { Ok(true) }
            },
        );
    }
    // A file that arrives in pieces (short reads) is the same song.
    let pipe = disk.dir.join("a/pipe");
    let data: Vec<u8> = (0..40000usize).map(|i| (i * 13 % 256) as u8).collect();
    let c = std::ffi::CString::new(pipe.as_os_str().as_bytes()).unwrap();
    for pieces in [vec![40000], vec![1, 39999], vec![8191, 1, 8193, 23615], vec![4096; 9], vec![100; 400]] {
        cx.case(
            || format!("pipe/{}x{}", pieces.len(), pieces[0]),
            || {
                std::fs::write(&f, &data).unwrap();
                let mut idx = SongIndex::new();
                let a = idx.index_song(&f).map_err(e)?;
                unsafe { libc::mkfifo(c.as_ptr(), 0o600) };
                let (p2, d2, pc) = (pipe.clone(), data.clone(), pieces.clone());
                let t = std::thread::spawn(move || {
                    use std::io::Write;
                    let mut w = std::fs::OpenOptions::new().write(true).open(p2).unwrap();
                    let mut at = 0;
                    for n in pc {
                        let end = (at + n).min(d2.len());
                        let _ = w.write_all(&d2[at..end]);
                        at = end;
                        std::thread::yield_now();
                    }
                    let _ = w.write_all(&d2[at..]);
                });
                let b = idx.identify(&pipe).map_err(e)?;
                t.join().unwrap();
                std::fs::remove_file(&pipe).unwrap();
                if a != b { Err("a file read in pieces is taken for another song".into()) } else { Ok(true) }
            },
        );
    }
}
/// Names are compared exactly.
fn names_table(cx: &Cx) {
    let disk = Disk::new();
    let names = ["s.wav", "S.wav", "s.WAV", "s", "s.", ".s", "s.wav.bak", "s.mp3", "s.wav ", " s.wav", "é", "e\u{301}", "s wav", "a", "b", "\u{1F3B5}.wav"];
    for x in names {
        for y in names {
            cx.case(
                || format!("names/{x:?}/{y:?}"),
                || {
                    let (f, g) = (disk.dir.join("a").join(x), disk.dir.join("b").join(y));
                    std::fs::write(&f, b"first").unwrap();
                    std::fs::write(&g, b"second").unwrap();
                    let mut idx = SongIndex::new();
                    let a = idx.index_song(&f).map_err(e)?;
                    let b = idx.identify(&g).map_err(e)?;
                    std::fs::remove_file(&f).unwrap();
                    std::fs::remove_file(&g).unwrap();
                    // Both names are known now (one of them by metadata alone).
                    let a2 = idx.identify(&f).map_err(|m| format!("a known name was not enough: {m}"))?;
                    let b2 = idx.identify(&g).map_err(|m| format!("a known name was not enough: {m}"))?;
                    if (a == b) != (x == y) || a2 != a || b2 != b {
                        return Err(format!("{a:?} {b:?} {a2:?} {b2:?}"));
                    }
                    Ok(true)
                },
            );
        }
    }
}
/// Paths without a final name, through symbolic links, relative ones.
fn odd_paths(cx: &Cx) {
    let disk = Disk::new();
    let d = &disk.dir;
    for p in ["", "/", ".", "..", "a", "a/", "a/..", "missing/x", "a/missing"] {
        cx.case(
            || format!("odd/{p:?}"),
            || {
                let path = if p.is_empty() || p == "/" { PathBuf::from(p) } else { d.join(p) };
                let mut idx = SongIndex::new();
                if idx.index_song(&path).is_ok() || idx.identify(&path).is_ok() || idx.identify(&path).is_ok() {
                    return Err("something that is not a file was indexed".into());
                }
                Ok(true)
            },
        );
    }
    cx.case(
        || "symlink".into(),
        || {
            let (f, l) = (d.join("a/real.wav"), d.join("b/link.wav"));
            std::fs::write(&f, b"data").unwrap();
            std::os::unix::fs::symlink(&f, &l).unwrap();
            let mut idx = SongIndex::new();
            let a = idx.index_song(&f).map_err(e)?;
            let b = idx.identify(&l).map_err(e)?;
            std::fs::remove_file(&f).unwrap();
            if idx.identify(&l).is_ok() {
                return Err("a dangling link with an unknown name was identified".into());
            }
            if a != b { Err("a link to an indexed file is another song".into()) } else { Ok(true) }
        },
    );
    // Failures change nothing: ask for files that are not there between two questions.
    for kind in ["missing", "dir"] {
        cx.case(
            || format!("failure/{kind}"),
            || {
                let (f, g) = (d.join("a/f.wav"), d.join("b/g.wav"));
                let bad = if kind == "dir" { d.join("a") } else { d.join("a/none.wav") };
                let mut idx = SongIndex::new();
                std::fs::write(&f, b"data").unwrap();
                if idx.index_song(&bad).is_ok() || idx.identify(&bad).is_ok() {
                    return Err("no error".into());
                }
                let a = idx.identify(&f).map_err(e)?;
                if idx.index_song(&bad).is_ok() || idx.identify(&bad).is_ok() {
                    return Err("no error".into());
                }
                std::fs::write(&g, b"data").unwrap();
                if idx.identify(&g).map_err(e)? != a {
                    return Err("the content was forgotten".into());
                }
                Ok(true)
            },
        );
    }
}
fn main() {
    kmc_engine::main_with(&[DEF]);
}

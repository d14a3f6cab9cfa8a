#!/usr/bin/env python3
"""bug.py make SPEC.py          write /verif/seeded/<id>/ from a spec (edits against /repo's HEAD)
bug.py try [-j N] [--checks all|none|own] ID...   confirm a planted bug in scratch copies of /repo and run checks
A spec file calls bug(id, prop, needs, what, edits=[(file, old, new)], demo='rust main.rs', features='parallel,simd').
Scratch copies are mounted over /repo in a mount namespace of their own: /repo itself is never touched."""
import json, os, subprocess, sys, tempfile, shutil, threading, queue
V = "/verif"; SLOTS = "/tmp/slots"
DEMO = '''#!/bin/bash
# run in the repository: builds main.rs against it, exit status = verdict
. /opt/vp/env.sh 2>/dev/null
R=$PWD
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d /tmp/demo.XXXXXX); trap 'rm -rf "$W"' EXIT
mkdir "$W/src"; cp "$D/main.rs" "$W/src/main.rs"; cp "$R/Cargo.lock" "$W/" 2>/dev/null
cat > "$W/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
kofft = { path = "$R"@FEATURES@ }
@DEPS@
[profile.dev]
debug = false
@PROFILE@
[workspace]
T
cd "$W" && CARGO_TARGET_DIR="$W/t" cargo build -q --offline || exit 3
timeout 120 "$W/t/debug/demo"
'''
def bug(id, prop, needs, what, edits, demo, features="", deps="", sh=None, files=(), profile="", nodefault=False, rustflags=""):
    d = f"{V}/seeded/{id}"; os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix="mkbug.")
    for f in {e[0] for e in edits}:
        src = subprocess.check_output(["git", "-C", "/repo", "show", f"HEAD:{f}"]).decode()
        out = src
        for g, old, new in edits:
            if g == f:
                assert out.count(old) == 1, f"{id}: {f}: {out.count(old)} matches of {old!r}"
                out = out.replace(old, new)
        for side, t in (("a", src), ("b", out)):
            p = f"{w}/{side}/{f}"; os.makedirs(os.path.dirname(p), exist_ok=True); open(p, "w").write(t)
    diff = subprocess.run(["git", "diff", "--no-index", "--no-prefix", "a", "b"], cwd=w, stdout=subprocess.PIPE).stdout
    open(f"{d}/patch.diff", "wb").write(diff); shutil.rmtree(w)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=what), open(f"{d}/meta.json", "w"), indent=1)
    if sh is None:
        open(f"{d}/main.rs", "w").write(demo)
        feats = ", features = [" + ",".join(f'"{x}"' for x in features.split(",") if x) + "]" if features else ""
        if nodefault: feats = ", default-features = false" + feats
        sh = DEMO.replace("@FEATURES@", feats).replace("@DEPS@", deps).replace("@PROFILE@", profile)
        if rustflags: sh = sh.replace("R=$PWD\n", f"R=$PWD\nexport RUSTFLAGS={rustflags!r}\n", 1)
    open(f"{d}/demo.sh", "w").write(sh); os.chmod(f"{d}/demo.sh", 0o755)
    for n, t in files: open(f"{d}/{n}", "w").write(t)
    print("made", id)

INNER = r'''
set -u
SLOT=$1; ID=$2; CHECKS=$3; B=/verif/seeded/$ID
mount --make-rprivate / ; mount --bind $SLOT /repo || exit 9
mount -t tmpfs none /opt/vp/work; mkdir -p /verif/out /verif/evidence; mount -t tmpfs none /verif/out; mount -t tmpfs none /verif/evidence
cp -r $B $SLOT-b; B=$SLOT-b
trap 'cd /repo && git checkout -q -- . && git clean -qfd; rm -rf "$SLOT-b"' EXIT
cd /repo && git checkout -q -- . && git clean -qfd
L=$SLOT-log; : > $L
timeout 300 bash $B/demo.sh >> $L 2>&1 || { echo "demo fails on the unchanged tree"; tail -5 $L; exit 1; }
git apply $B/patch.diff 2>>$L || { echo "patch does not apply"; exit 1; }
git diff --name-only | xargs touch
bash /opt/vp/build.sh >> $L 2>&1 || { echo "does not build"; grep -E '^error' -A6 $L | head -20; exit 1; }
bash /opt/vp/test.sh $SLOT-t.json >> $L 2>&1
python3 - $SLOT-t.json <<'P' || exit 1
import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); p=set(json.load(open(sys.argv[1]))['passed'])
m=sorted(b-p)
if m: print("tests catch it:", m[:4]); sys.exit(1)
P
timeout 300 bash $B/demo.sh >> $L 2>&1; r=$?
[ $r = 0 ] && { echo "demo passes with the patch"; exit 1; }
[ $r = 3 ] && { echo "demo does not build with the patch"; tail -5 $L; exit 1; }
echo "counts (demo $r: $(tail -1 $L | cut -c1-120))"
for c in $CHECKS; do
  s=$(date +%s); KMC_TARGET=$SLOT-target timeout 900 /verif/check.sh $c > $SLOT-c 2>&1; r=$?
  v=$(grep -m1 ^VIOLATION $SLOT-c); k=$(grep -m1 -A3 ^VIOLATION $SLOT-c | tail -3 | tr '\n' ' ' | cut -c1-160)
  if [ $r = 1 ] && [ -n "$v" ]; then echo "  $c CAUGHT $(( $(date +%s)-s ))s $k"; elif [ $r = 0 ]; then echo "  $c quiet"; else echo "  $c EXIT $r: $(tail -3 $SLOT-c | tr '\n' ' ' | cut -c1-300)"; fi
done
'''
def slot(n):
    s = f"{SLOTS}/{n}"
    if not os.path.isdir(s):
        os.makedirs(SLOTS, exist_ok=True)
        subprocess.check_call(["cp", "-a", "/repo", s])
    head = subprocess.check_output(["git", "-C", "/repo", "rev-parse", "HEAD"]).decode().strip()
    subprocess.check_call(f"cd {s} && git checkout -q -- . && git clean -qfd && git fetch -q /repo HEAD && git checkout -q {head}", shell=True)
    return s
def tryall(ids, j, mode):
    allchecks = [c["property"] for c in json.load(open(f"{V}/MANIFEST.json"))["checks"]]
    q = queue.Queue(); res = {}
    for i in ids: q.put(i)
    def work(n):
        s = slot(n)
        while True:
            try: i = q.get_nowait()
            except queue.Empty: return
            own = json.load(open(f"{V}/seeded/{i}/meta.json"))["property"]
            cs = {"none": [], "own": [own], "all": [own] + [c for c in allchecks if c != own]}.get(mode, mode.split(","))
            p = subprocess.run(["unshare", "-m", "bash", "-c", INNER, "inner", s, i, " ".join(c for c in cs if c in allchecks)],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            print(f"== {i} [{own}] " + p.stdout.decode(errors='replace').rstrip(), flush=True)
    ts = [threading.Thread(target=work, args=(n,)) for n in range(j)]
    [t.start() for t in ts]; [t.join() for t in ts]
if __name__ == "__main__":
    a = sys.argv[1:]
    if a[0] == "make":
        for f in a[1:]: exec(compile(open(f).read(), f, "exec"))
    else:
        j, mode, ids = 2, "own", []
        it = iter(a[1:])
        for x in it:
            if x == "-j": j = int(next(it))
            elif x == "--checks": mode = next(it)
            else: ids.append(x)
        tryall(ids or sorted(os.listdir(V + "/seeded")), j, mode)

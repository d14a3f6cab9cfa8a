#!/bin/bash
# check.sh <ID> [args]   build what property <ID> needs from /repo's working tree, then decide it.
# check.sh --setup       build everything.
set -u
V=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
export KMC_VERIF=$V
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0 RUSTC_WRAPPER=
export CARGO_TARGET_DIR=${KMC_TARGET:-$V/target}
unset KOFFT_PAR_FFT_THRESHOLD KOFFT_PAR_FFT_CACHE_BYTES KOFFT_PAR_FFT_PER_CORE_WORK \
  KOFFT_PAR_FFT_BLOCK_SIZE KOFFT_PAR_FFT_THREADS RAYON_NUM_THREADS RUST_TEST_THREADS
mkdir -p "$CARGO_TARGET_DIR" "$V/evidence" "$V/out"
LOG=$V/out/build.log

# Cargo trusts modification times; a copied or restored tree may carry any.  When the sources
# differ from those of the last build, drop what was built from /repo.
stamp() {
  (cd /repo && find . \( -path ./target -o -path ./.git \) -prune -o -type f \
     \( -name '*.rs' -o -name '*.toml' -o -name '*.json' -o -name '*.mjs' \) -print0 | sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)
}
fresh() { # <target dir> <manifest dir> <packages...>
  local td=$1 md=$2 s; shift 2
  s=$(stamp)
  if [ ! -f "$td/repo.stamp" ] || [ "$(cat "$td/repo.stamp")" != "$s" ]; then
    for p in "$@"; do
      (cd "$md" && CARGO_TARGET_DIR=$td cargo clean --offline --release -p "$p"; CARGO_TARGET_DIR=$td cargo clean --offline --profile cfg -p "$p") >/dev/null 2>&1
    done
    mkdir -p "$td"; echo "$s" > "$td/repo.stamp"
  fi
}
build() { # <package> [cargo args]
  fresh "$CARGO_TARGET_DIR" "$V/mc" kofft xtask sanity-check kmc-tools
  if ! (cd "$V/mc" && cargo build --release --offline -p "$@") > "$LOG" 2>&1; then
    tail -40 "$LOG" >&2; echo "build failed: $*" >&2; exit 2
  fi
}
# The build configurations of C18: name|features of mc/cfg|rustc flags|processor features needed
CONFIGS='std|std full||
nostd|full||
all|std parallel soa simd x86_64 sse avx2 avx512 aarch64 wasm slow compile-time-rfft precomputed-twiddles||
ctrfft|std parallel compile-time-rfft||
tables|std precomputed-twiddles x86_64||
nostd-all|soa simd x86_64 slow compile-time-rfft||
avx2|std parallel x86_64|-C target-feature=+avx2,+fma|avx2 fma
avx512|std x86_64 avx512 compile-time-rfft|-C target-feature=+avx2,+fma,+avx512f|avx2 fma avx512f'
build_configs() { # builds every configuration, four at a time; sets EXES
  local name feats flags cpu f ok=1 pids=() td
  EXES=
  while IFS='|' read -r name feats flags cpu; do
    for f in $cpu; do grep -qw "$f" /proc/cpuinfo || continue 2; done
    # Two target directories per kind of flags would rebuild the same dependencies: one per configuration.
    td=$CARGO_TARGET_DIR-cfg/$name
    (
      mkdir -p "$td"
      fresh "$td" "$V/mc" kofft
      cd "$V/mc" && CARGO_TARGET_DIR=$td RUSTFLAGS=$flags cargo build --profile cfg --offline -p kmc-cfg --features "$feats" > "$V/out/build-$name.log" 2>&1 &&
        ln -f "$td/cfg/c18" "$CARGO_TARGET_DIR-cfg/c18-$name"
    ) &
    pids+=($!)
    EXES="$EXES$name=$CARGO_TARGET_DIR-cfg/c18-$name;"
    [ $((${#pids[@]} % 4)) = 0 ] && { for f in "${pids[@]}"; do wait "$f" || ok=0; done; pids=(); }
  done <<< "$CONFIGS"
  for f in "${pids[@]}"; do wait "$f" || ok=0; done
  [ $ok = 1 ] && return
  # Does the library itself not build in a configuration, or does the harness not fit it?
  while IFS='|' read -r name feats flags cpu; do
    for f in $cpu; do grep -qw "$f" /proc/cpuinfo || continue 2; done
    [ "$name" = std ] && continue
    f=$(for f in $feats; do [ $f = full ] || echo -n "kofft/$f "; done)
    if (cd "$V/mc" && CARGO_TARGET_DIR=$CARGO_TARGET_DIR-cfg/std cargo check --profile cfg --offline -p kofft --no-default-features) >/dev/null 2>&1 &&
       ! (cd "$V/mc" && CARGO_TARGET_DIR=$CARGO_TARGET_DIR-cfg/$name RUSTFLAGS=$flags cargo check --profile cfg --offline -p kofft --no-default-features --features "${f//kofft\//}") > "$V/out/C18-$name.log" 2>&1; then
      echo "VIOLATION property=C18 replay=$V/out/C18-$name.log"
      echo "  kofft does not compile in configuration $name ($feats $flags)"
      grep -E "^error" -A8 "$V/out/C18-$name.log" | head -20
      exit 1
    fi
  done <<< "$CONFIGS"
  grep -hE -A8 "^error" "$V"/out/build-*.log >&2; echo "a configuration does not build" >&2; exit 2
}
if [ "${1:-}" = --setup ]; then
  build kmc-core
  build kmc-tools --bins
  build_configs
  (cd "$V/mc-par" && CARGO_TARGET_DIR=$CARGO_TARGET_DIR-par cargo build --release --offline -p kmc-par) > "$LOG" 2>&1
  (cd "$V/mc-web" && CARGO_TARGET_DIR=$CARGO_TARGET_DIR-web cargo build --release --offline) > "$LOG" 2>&1
  exit 0
fi
ID=${1:?property id}; shift
BIN=$(echo "$ID" | tr A-Z a-z)
case $ID in
  C10)
    TD=$CARGO_TARGET_DIR-par
    fresh "$TD" "$V/mc-par" kofft
    if (cd "$V/mc-par" && CARGO_TARGET_DIR=$TD cargo build --release --offline -p kmc-par) > "$LOG" 2>&1; then
      exec "$TD/release/c10" C10 "$@"
    fi
    echo "the tree does not build against the stand-in for rayon; using rayon itself" >&2
    build kmc-core --bin c10; exec "$CARGO_TARGET_DIR/release/c10" C10 "$@" ;;
  C18)
    build_configs
    export KMC_EXES=${EXES%;}
    exec "$CARGO_TARGET_DIR-cfg/c18-std" C18 "$@" ;;
  C27)
    TD=$CARGO_TARGET_DIR-web
    fresh "$TD" "$V/mc-web" kofft web-spectrogram kmc-web
    if ! (cd "$V/mc-web" && CARGO_TARGET_DIR=$TD cargo build --release --offline) > "$LOG" 2>&1; then
      tail -40 "$LOG" >&2; echo "build failed: web-spectrogram" >&2; exit 2
    fi
    exec "$TD/release/c27" C27 "$@" ;;
  C19|C22) build kmc-tools --bins; exec "$CARGO_TARGET_DIR/release/$BIN" "$ID" "$@" ;;
  *) build kmc-core --bin "$BIN"; exec "$CARGO_TARGET_DIR/release/$BIN" "$ID" "$@" ;;
esac

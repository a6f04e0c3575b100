#!/bin/bash
# check.sh C01              check one property (VERIF_SEED, VERIF_TIER)
# check.sh --build          build everything (setup)
# check.sh --replay FILE    run a replay file again
# check.sh --digests ARGS   see sim/src/drive.rs
set -u
verif="$(cd "$(dirname "$0")" && pwd)"
sim="$verif/sim"
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER CARGO_TARGET_DIR CARGO_BUILD_TARGET

# What /repo's working tree contains decides whether goban is compiled again, not timestamps.
stamp() { # target directory
  local sum
  sum="$( (cd /repo && find src Cargo.toml build.rs -type f 2>/dev/null | LC_ALL=C sort | xargs -d '\n' sha256sum; rustc -V) | sha256sum)"
  if [ "$(cat "$1/repo.stamp" 2>/dev/null)" != "$sum" ]; then
    mkdir -p "$1"
    find "$1" -maxdepth 3 -path '*/.fingerprint/goban-*' -prune -exec rm -rf {} + 2>/dev/null
    echo "$sum" > "$1/repo.stamp"
  fi
}

run_cargo() { # log name, arguments
  local log="$sim/target/build-$1.log"; shift
  mkdir -p "$sim/target"
  if ! (cd "$sim" && cargo build --offline --locked "$@") > "$log" 2>&1; then
    echo "the simulator does not build:" >&2
    tail -40 "$log" >&2
    return 1
  fi
}

build_plain() {
  stamp "$sim/target"
  run_cargo release --release && run_cargo checked --profile checked
}

build_cov() {
  stamp "$sim/target-cov"
  RUSTC_WRAPPER="$sim/wrap.sh" CARGO_TARGET_DIR="$sim/target-cov" run_cargo cov --release
}

build_for() { # property
  exec 9> "$verif/.build.lock"
  flock 9
  if [ "$1" = C08 ]; then
    build_cov || exit 2
    bins="$sim/target-cov/release/sim"; names=cov
  else
    build_plain || exit 2
    bins="$sim/target/release/sim,$sim/target/checked/sim"; names=release,checked
  fi
  exec 9>&-
}

case "${1:-}" in
  --build)
    build_for C01; build_for C08; echo built ;;
  --replay)
    p="$(sed -n 's/^property //p' "$2" | head -1)"
    build_for "$p"
    exec "${bins%%,*}" replay "$2" --bins "$bins" --names "$names" --verif "$verif" ;;
  --digests)
    shift; build_for "$1"; p="$1"; bin="${bins%%,*}"; shift
    exec "$bin" digests --prop "$p" "$@" ;;
  C[01][0-9])
    build_for "$1"
    exec "${bins%%,*}" check --prop "$1" --tier "${VERIF_TIER:-quick}" --seed "${VERIF_SEED:-1}" --verif "$verif" --bins "$bins" --names "$names" ;;
  *) echo "usage: check.sh Cnn | --build | --replay FILE | --digests Cnn ..." >&2; exit 2 ;;
esac

#!/bin/bash
# run.sh <property>            one check: build the simulation (Go: C01-C27, C35-C37, Rust: C28-C34) from /repo's working tree, search, write evidence
# run.sh --replay FILE         replay a violation exactly (VERIF_TRACE=1 prints every scheduling decision)
# run.sh --exec ARGS...        the harness binary with ARGS (-prop first names the half)
# run.sh --build               build only
# Environment: VERIF_SEED, VERIF_TIER (quick|thorough), VERIF_REPO (default /repo), VERIF_DUR (e.g. 60s)
here=$(cd "$(dirname "$0")" && pwd)
repo=${VERIF_REPO:-/repo}
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-buildvcs=false GOWORK=off
work=$(mktemp -d "${TMPDIR:-/tmp}/verif.XXXXXX") || exit 3
trap 'rm -rf "$work"' EXIT

# The Go half: simgen adds scheduling points to a copy of the working tree's sources.
go_half() {
  (cd "$here/simgen" && go build -o "$work/simgen" .) || { echo "cannot build simgen" >&2; exit 3; }
  (cd "$repo/go" && "$work/simgen" -repo "$repo/go" -sim "$here/sim" -out "$work/o" >"$work/simgen.log" 2>&1) || { cat "$work/simgen.log" >&2; echo "cannot instrument $repo/go" >&2; exit 3; }
  (cd "$repo/go" && go build -overlay "$work/o/overlay.json" -o "$work/check" ./internal/verifsim/harness) || { echo "cannot build the simulation" >&2; exit 3; }
  check=$work/check
}
# The Rust half: prep.py copies the working tree's crates beside the simulator's stand-ins.
rust_half() {
  python3 "$here/rsim/prep.py" "$repo/rust" "$work" >"$work/prep.log" 2>&1 || { cat "$work/prep.log" >&2; echo "cannot prepare $repo/rust" >&2; exit 3; }
  (cd "$work/w" && CARGO_TARGET_DIR=$work/t RUSTFLAGS="--cap-lints allow" cargo build -q --offline --release -p harness) >"$work/cargo.log" 2>&1 || { cat "$work/cargo.log" >&2; echo "cannot build the Rust simulation" >&2; exit 3; }
  check=$work/t/release/rcheck
}
half() {
  case $1 in
  C2[89] | C3[0-4]) rust_half ;;
  *) go_half ;;
  esac
}
prop_in() { python3 -c 'import json,sys; print(json.load(open(sys.argv[1])).get("property",""))' "$1"; }

case $1 in
--build) go_half; rust_half; exit 0;;
--replay) half "$(prop_in "$2")"; "$check" -replay "$2"; exit $?;;
--exec) shift; p=; for a in "$@"; do [ "$last" = -prop ] && p=$a; last=$a; done; half "$p"; "$check" "$@"; exit $?;;
esac
half "$1"
mkdir -p "$here/evidence" "$here/replays"
args=(-prop "$1" -seed "${VERIF_SEED:-1}" -tier "${VERIF_TIER:-quick}" -evidence "$here/evidence" -replays "$here/replays" -known "$here/known-findings.jsonl")
[ -n "$VERIF_DUR" ] && args+=(-dur "$VERIF_DUR")
"$check" "${args[@]}"
exit $?

#!/bin/bash
# run.sh <property> [--tier quick|thorough] [--replay FILE]
# Rebuilds the explorer that decides <property> from /repo's working tree and runs it.
VERIF_DIR=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
export VERIF_DIR
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= 
export CARGO_TARGET_DIR=${MC_TARGET_DIR:-$VERIF_DIR/target}
prop=$1; shift
bin=$(awk -v p="$prop" '$1==p{print $2}' "$VERIF_DIR/mc/bins.txt")
[ -n "$bin" ] || { echo "unknown property $prop" >&2; exit 2; }
cd "$VERIF_DIR/mc" || exit 2
log=$(mktemp)
if ! cargo build --release --offline --locked -q --bin "$bin" >"$log" 2>&1; then
  cat "$log" >&2
  # C41's programs are expanded by /repo's macro when they are compiled: one of them that is refused, with all else compiling, is the answer.
  if [ "$bin" = ui ] && grep -q 'src/bin/ui/programs.rs' "$log" && cargo build --release --offline --locked -q --bin text >/dev/null 2>&1; then
    line=$(awk '/^error/{e=1} e' "$log" | grep -o 'src/bin/ui/programs.rs:[0-9]*' | head -1 | cut -d: -f2)
    mkdir -p "$VERIF_DIR/evidence"
    python3 -c 'import json,sys; print(json.dumps({"property": sys.argv[1], "case": "does not compile: " + sys.argv[2].strip()}))' "$prop" "$(sed -n "${line}p" src/bin/ui/programs.rs)" > "$VERIF_DIR/evidence/replay-$prop.json"
    cat "$VERIF_DIR/evidence/replay-$prop.json"; rm -f "$log"
    echo "VIOLATION property=$prop replay=$VERIF_DIR/evidence/replay-$prop.json"; exit 1
  fi
  rm -f "$log"; echo "build failed" >&2; exit 2
fi
rm -f "$log"
"$CARGO_TARGET_DIR/release/$bin" "$prop" "$@"
rc=$?
case $rc in
  134|139) # the code under test overflowed its stack or aborted
    mkdir -p "$VERIF_DIR/evidence"
    echo "{\"property\": \"$prop\", \"case\": \"process died with status $rc\"}" > "$VERIF_DIR/evidence/replay-$prop.json"
    echo "VIOLATION property=$prop replay=$VERIF_DIR/evidence/replay-$prop.json"; exit 1;;
esac
exit $rc

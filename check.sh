#!/usr/bin/env bash
# check.sh build              build both simulator binaries from /repo's working tree
# check.sh <property> [tier]  decide one property (tier from $2, else VERIF_TIER, else quick)
# check.sh replay <file>      re-execute a replay file against the current tree
set -u
HERE="$(cd "$(dirname "$0")" && pwd)"
cd "$HERE/sim" || exit 3
export RUSTFLAGS='--cfg getrandom_backend="custom"'
export RUSTC_WRAPPER="$HERE/sim/instrument.sh"
export CARGO_NET_OFFLINE=true
unset CARGO_TARGET_DIR CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_RUSTFLAGS
build() { # $1 = sim | trace
  local feat=()
  [ "$1" = trace ] && feat=(--features trace)
  local log now
  # cargo judges freshness by time stamps; judge it by content as well
  now=$(cd /repo && find . -path ./target -prune -o -path ./.git -prune -o -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum)
  if [ "$now" != "$(cat "$HERE/.build/$1.tree" 2>/dev/null)" ]; then
    find "$HERE/.build/$1/release/.fingerprint" -maxdepth 1 -name 'bnf-*' -exec rm -rf {} + 2>/dev/null
    rm -f "$HERE/.build/$1.tree"
  fi
  if ! log=$(cargo build --release --offline --quiet --target-dir "$HERE/.build/$1" "${feat[@]}" 2>&1); then
    echo "$log" | tail -40 >&2
    echo "check.sh: build failed" >&2
    exit 3
  fi
  echo "$now" > "$HERE/.build/$1.tree"
}
flavour() { if [ "$1" = C14 ]; then echo trace; else echo sim; fi; }
case "${1:-}" in
  build) build sim; build trace; exit 0 ;;
  replay)
    f="$2"; [ "${f#/}" = "$f" ] && f="$OLDPWD/$f"
    id=$(sed -n 's/^ *"property": *"\(C[0-9]*\)".*/\1/p' "$f" | head -1)
    b=$(flavour "$id"); build "$b"
    [ "$b" = trace ] && build sim
    exec "$HERE/.build/$b/release/bnfsim" replay "$f" ;;
  C[0-9][0-9])
    b=$(flavour "$1"); build "$b"
    [ "$b" = trace ] && build sim
    tier="${2:-${VERIF_TIER:-quick}}"
    exec "$HERE/.build/$b/release/bnfsim" check "$1" --tier "$tier" --seed "${VERIF_SEED:-1}" \
      --evidence "$HERE/evidence/$1.json" --replays "$HERE/replays" ${BNFSIM_ARGS:-} ;;
  *) echo "usage: check.sh build | <property> [quick|thorough] | replay <file>" >&2; exit 3 ;;
esac

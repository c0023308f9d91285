#!/bin/bash
# run.sh ID [quick|thorough] [arguments of the check program, e.g. --replay FILE]
# Builds the check of one property against the working tree in /repo and runs it.
# Exit: 0 held, 1 violated (with a VIOLATION line), 2 no answer.
set -u
here=$(cd "$(dirname "$0")" && pwd)
export VERIF_ROOT="$here"
id=${1:?property id}
shift
tier=${VERIF_TIER:-quick}
if [ "${1:-}" = quick ] || [ "${1:-}" = thorough ]; then
  tier=$1
  shift
fi
export VERIF_TIER=$tier
export VERIF_SEED=${VERIF_SEED:-1}
mkdir -p "$here/evidence" "$here/replays"
rm -f "$here/evidence/$id.json"

# crate of the check, and how many times the cases a cheap check generates on every change
scale=1
also=""
case $id in
  C01|C02|C03|C07) crate=c-watermark ;;
  C20) crate=c-watermark; scale=1.5 ;;
  C27) crate=c-watermark; scale=3 ;;
  C28) crate=c-watermark; scale=4 ;;
  C35) crate=c-embedding; scale=2 ;;
  C36) crate=c-watermark; scale=2 ;;
  C04|C05|C08) crate=c-embedding; scale=3 ;;
  C06) crate=c-embedding; scale=4 ;;
  C11) crate=c-embedding; scale=10 ;;
  C12) crate=c-embedding; scale=20 ;;
  C09) crate=c-encoding ;;
  C10) crate=c-encoding; scale=1.5 ;;
  C13) crate=c-zernike; scale=8 ;;
  C14) crate=c-zernike; scale=3 ;;
  C15) crate=c-zernike; scale=3 ;;
  C16) crate=c-zernike; scale=2 ;;
  C17|C18|C19) crate=c-quant; scale=12 ;;
  C21|C22) crate=c-signature; scale=12 ;;
  C23) crate=c-utils; scale=4 ;;
  C24) crate=c-utils; scale=8 ;;
  C25|C26) crate=c-utils; scale=20 ;;
  C29) crate=c-whole; scale=3 ;;
  C30|C31|C37) crate=c-cli; also="-p cli-under-test" ;;
  C32) crate=c-web ;;
  C33|C34) exec node "$here/front/${id,,}.mjs" "$@" ;;
  setup) crate="" ;;
  *) echo "ERROR no such property: $id"; exit 2 ;;
esac
if [ "$tier" = quick ]; then
  export VERIF_SCALE=${VERIF_SCALE:-$scale}
fi

cd "$here/harness" || exit 2
export CARGO_NET_OFFLINE=true
exec 9>"$here/harness/.lock"
flock 9

# Cargo goes by time stamps. Where the tree in /repo differs from the one last built, whatever its
# time stamps say, everything that came out of /repo is built again.
stamp=$(cd /repo && find lib/sia/rust Cargo.toml -type f -not -path '*/target/*' -print0 | sort -z | xargs -0 sha256sum | sha256sum)
fresh() {
  if [ -d "$1" ] && [ "$(cat "$1/stamp" 2>/dev/null)" != "$stamp" ]; then
    cargo clean --offline --release --target-dir "$1" -p utils -p signature -p three-bit-quantization -p encoding -p embedding \
      -p zernike -p image-features -p watermarking -p cli-under-test -p web-under-test >/dev/null 2>&1 || rm -rf "${1:?}/release"
  fi
  mkdir -p "$1"
  echo "$stamp" > "$1/stamp"
}

# build TARGET_DIR RUSTFLAGS
build() {
  fresh "$1"
  if [ -n "$crate" ]; then
    what="-p $crate $also"
    if [ "$crate" != c-web ] && [ "$crate" != c-cli ]; then what="$what --bin ${id,,}"; fi
  else
    what="--workspace"
  fi
  RUSTFLAGS="$2" cargo build --offline --release --target-dir "$1" $what >"$1/log" 2>&1
}

target="$here/harness/target/hooked"
if [ -n "${VERIF_PLAIN:-}" ] || ! build "$target" "--cfg sia_verif_hooks"; then
  cp "$target/log" "$here/harness/target/hooked.log" 2>/dev/null
  # the private items behind the hooks may have changed: the public interface has to do
  target="$here/harness/target/plain"
  echo "note: not built with the hooks; see $here/harness/target/hooked.log"
  if ! build "$target" ""; then
    grep -E '^error' -A8 "$target/log" | head -60
    echo "ERROR property=$id the check cannot be built"
    exit 2
  fi
fi
flock -u 9
[ -z "$crate" ] && exit 0
exec "$target/release/${id,,}" "$@" 9>&- 2> >(grep -v '^proptest: Aborting' >&2)

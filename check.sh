#!/bin/bash
# ./check.sh C01..C15, C19, C20            rebuild from /repo's working tree and decide the property
# ./check.sh build               build both variants
# ./check.sh replay FILE         re-execute a replay file
# ./check.sh selftest N WORKERS  determinism of the simulator
# VERIF_SEED and VERIF_TIER as documented in MANIFEST.json
cd "$(dirname "$(readlink -f "$0")")" || exit 2
export HOME="${HOME:-/root}"
export PATH="/root/.cargo/bin:/usr/local/cargo/bin:${PATH:-/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin}"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset CARGO_INCREMENTAL CARGO_PROFILE_DEV_DEBUG CARGO_TARGET_DIR RUSTC
REPO=/repo

variant() { case "$1" in C08|C09|C1[0-5]) echo int ;; *) echo pub ;; esac; }
build() { # build VARIANT: pub (public API only, no hooks) or int (--cfg auto_palette_dst)
  local v=$1 flags="" feat=""
  local dir="$PWD/target/$v"
  mkdir -p "$dir"
  if [ "$v" = int ]; then flags="--cfg auto_palette_dst"; feat="--features internals"; fi
  (
    flock 9
    # judge by content, not by modification time
    local stamp
    stamp=$( (cd $REPO && find src Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum; cd "$OLDPWD"; find harness -type f -print0 | sort -z | xargs -0 sha256sum) | sha256sum)
    if [ "$(cat "$dir/stamp" 2>/dev/null)" != "$stamp" ]; then
      rm -f "$dir/stamp"
      (cd harness && RUSTC_WRAPPER= CARGO_TARGET_DIR="$dir" cargo clean -q --offline --release -p auto-palette -p subject -p apsim) >/dev/null 2>&1
    fi
    (cd harness && RUSTFLAGS="$flags" RUSTC_WRAPPER="$PWD/rustc-wrap.sh" CARGO_TARGET_DIR="$dir" \
      cargo build -q --release --offline $feat) >"$dir/build.log" 2>&1 || { tail -40 "$dir/build.log"; echo "ERROR: build failed"; exit 2; }
    echo "$stamp" >"$dir/stamp"
  ) 9>"$dir/lock"
}

case "$1" in
  build) build pub && build int ;;
  replay)
    p=$(grep -o '"property": *"C[0-9]*"' "$2" | head -1 | grep -o 'C[0-9]*')
    v=$(variant "$p")
    build $v || exit 2
    exec "target/$v/release/apsim" replay "$2" ;;
  selftest)
    build pub && build int || exit 2
    target/pub/release/apsim selftest "$2" "$3"; a=$?
    target/int/release/apsim selftest "$2" "$3"; b=$?
    exit $((a | b)) ;;
  run) v=$(variant "$2")
    build $v || exit 2
    exec "target/$v/release/apsim" run "$2" "$3" ;;
  C0[1-7]|C19|C20) build pub || exit 2; exec target/pub/release/apsim check "$1" ;;
  C08|C09|C1[0-5]) build int || exit 2; exec target/int/release/apsim check "$1" ;;
  *) echo "usage: $0 <property>|build|replay FILE|selftest N WORKERS"; exit 2 ;;
esac

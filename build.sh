#!/bin/bash
# build.sh CONTRACT...   Builds the named contracts' wasm from the working tree of $VERIF_REPO (/repo)
# into $VERIF_CACHE/wasm, the way their own build.sh do. Incremental; safe to run concurrently.
set -u
REPO=${VERIF_REPO:-/repo}
HERE=$(cd "$(dirname "$0")" && pwd)
CACHE=${VERIF_CACHE:-$HERE/.cache}
mkdir -p "$CACHE/wasm" || exit 2
exec 9>"$CACHE/lock"; flock 9
export HOME=/root LANG=C.UTF-8 PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=1.70.0
TC=/root/.rustup/toolchains/1.69.0-x86_64-unknown-linux-gnu/bin
export RUSTC=$TC/rustc RUSTDOC=$TC/rustdoc RUSTC_WRAPPER= CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=1
export CARGO_TARGET_DIR=$CACHE/target
WS=$CACHE/ws
GIT_DEPS="multisig staking-pool staking-pool-factory"
declare -A NAME=([whitelist]=whitelist [staking-pool]=staking_pool [lockup]=lockup_contract [w-near]=w_near [multisig2]=multisig2
  [staking-pool-factory]=staking_pool_factory [lockup-factory]=lockup_factory [multisig-factory]=multisig_factory
  [multisig]=multisig [voting]=voting_contract [state-manipulation]=state_manipulation)

# Dependencies that were compiled when the sandbox was made save a cold build; without them cargo
# compiles them from its offline registry.
if [ ! -e "$CACHE/seeded" ]; then
  mkdir -p "$CARGO_TARGET_DIR/wasm32-unknown-unknown"
  if [ -d /opt/vp/target/wasm32-unknown-unknown/release ]; then
    cp -a /opt/vp/target/wasm32-unknown-unknown/release "$CARGO_TARGET_DIR/wasm32-unknown-unknown/" 2>/dev/null
    cp -a /opt/vp/target/release "$CARGO_TARGET_DIR/" 2>/dev/null
    rm -f "$CARGO_TARGET_DIR"/wasm32-unknown-unknown/release/*.wasm
  fi
  touch "$CACHE/seeded"
fi
ex=()
for c in whitelist staking-pool lockup w-near multisig2; do ex+=(--exclude "/$c/res/${NAME[$c]}.wasm"); done
for c in $GIT_DEPS; do ex+=(--exclude "/$c/Cargo.toml" --exclude "/$c/Cargo.lock"); done
mkdir -p "$WS"
rsync -rlpc --delete --exclude /.git --exclude target "${ex[@]}" "$REPO/" "$WS/" || exit 2
for c in $GIT_DEPS; do
  mkdir -p "$WS/$c"
  if ! cat "$REPO/$c/Cargo.toml" "$REPO/$c/Cargo.lock" | cmp -s - "$WS/.$c.origin"; then
    sed -E '/^[A-Za-z0-9_-]+ *= *\{ *git *=/d' "$REPO/$c/Cargo.toml" > "$WS/$c/Cargo.toml" || exit 2
    cp "$REPO/$c/Cargo.lock" "$WS/$c/Cargo.lock"
    cat "$REPO/$c/Cargo.toml" "$REPO/$c/Cargo.lock" > "$WS/.$c.origin"
  fi
done
put() { cmp -s "$1" "$2" || { cp "$1" "$2.tmp" && mv "$2.tmp" "$2"; }; }
one() {
  local c=$1 n=${NAME[$1]} locked=--locked
  case " $GIT_DEPS " in *" $c "*) locked= ;; esac
  case $c in
    staking-pool-factory) one staking-pool || return 1 ;;
    lockup-factory) one lockup || return 1 ;;
    multisig-factory) one multisig2 || return 1 ;;
  esac
  local out=$CARGO_TARGET_DIR/wasm32-unknown-unknown/release/$n.wasm
  if [ $c = state-manipulation ]; then
    local f
    for f in "all:--all-features" "clean:--no-default-features --features clean" "replace:--no-default-features --features replace"; do
      (cd "$WS/$c" && unset RUSTFLAGS && RUSTC_BOOTSTRAP=1 cargo build --target wasm32-unknown-unknown --release --offline --locked ${f#*:}) >>"$CACHE/build.log" 2>&1 || return 1
      put "$out" "$CACHE/wasm/state_manipulation_${f%%:*}.wasm"
    done
    return 0
  fi
  (cd "$WS/$c" && RUSTFLAGS='-C link-arg=-s' cargo build --target wasm32-unknown-unknown --release --offline $locked) >>"$CACHE/build.log" 2>&1 || return 1
  put "$out" "$CACHE/wasm/$n.wasm"
  case $c in whitelist|staking-pool|lockup|w-near|multisig2) mkdir -p "$WS/$c/res"; put "$out" "$WS/$c/res/$n.wasm" ;; esac
}
: > "$CACHE/build.log"
for c in "$@"; do one "$c" || { echo "build of $c failed:"; tail -40 "$CACHE/build.log"; exit 2; }; done
exit 0

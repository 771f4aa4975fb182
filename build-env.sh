# Sourced: build <target dir> [cargo flags]
export KV_VERIF=$PWD CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET CARGO RUSTC_WRAPPER

build() {
  export CARGO_TARGET_DIR=$PWD/harness/$1
  shift
  mkdir -p "$CARGO_TARGET_DIR"
  # cargo goes by the time of a file, which a copy of the sandbox may not keep:
  # what was built from other contents is thrown away
  local now log
  now=$(cd /repo && find Cargo.toml src -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum)
  if [ "$(cat "$CARGO_TARGET_DIR/kv-built-from" 2>/dev/null)" != "$now" ]; then
    cargo clean --offline --quiet --release --manifest-path harness/Cargo.toml -p krates -p kv >/dev/null 2>&1
  fi
  rm -f "$CARGO_TARGET_DIR/kv-built-from"
  log=$(mktemp)
  if ! cargo build --release --offline --quiet --manifest-path harness/Cargo.toml "$@" >"$log" 2>&1; then
    cat "$log" >&2
    rm -f "$log"
    echo "the harness does not build" >&2
    return 1
  fi
  rm -f "$log"
  printf %s "$now" >"$CARGO_TARGET_DIR/kv-built-from"
}

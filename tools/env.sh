# sourced by the checks
export VERIF_ROOT="$ROOT"
export HOME="${HOME:-/root}"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUSTFLAGS=
unset CARGO_PROFILE_DEV_DEBUG CARGO_INCREMENTAL
export CARGO_TARGET_DIR="$ROOT/target"
# cargo goes by the times of files: what was built from other content than /repo's now is built again
fresh() {
  local now
  now="$(cd /repo && find . \( -name target -o -name node_modules -o -name .git \) -prune -o -type f \( -name '*.rs' -o -name '*.toml' -o -name '*.lock' \) -print0 | sort -z | xargs -0 sha256sum | sha256sum)"
  if [ "$now" != "$(cat "$ROOT/target/repo.sha" 2>/dev/null)" ]; then
    rm -rf "$ROOT"/target/debug/.fingerprint/json_typegen*
    echo "$now" >"$ROOT/target/repo.sha"
  fi
}
build_harness() {
  local log="$ROOT/target/build.log"
  mkdir -p "$ROOT/target"
  fresh
  if ! (cd "$ROOT/harness" && cargo build --offline --locked >"$log" 2>&1); then
    echo "harness build failed:" >&2
    grep -E "^(error|warning: unused)" -A8 "$log" | head -60 >&2
    return 1
  fi
}
build_rt() {
  local dir="${1:-rt}" name="${2:-rt}"
  local log="$ROOT/target/$name.log"
  if ! (cd "$ROOT/$dir" && cargo build --offline --locked --message-format=json >"$ROOT/target/$name.json.new" 2>"$log"); then
    echo "build of the Rust runtime failed:" >&2
    tail -30 "$log" >&2
    return 1
  fi
  mv "$ROOT/target/$name.json.new" "$ROOT/target/$name.json"
}
build_rig() {
  local log="$ROOT/target/$1.log"
  if ! (cd "$ROOT/rigs/$1" && cargo build --offline --locked >"$log" 2>&1); then
    echo "build of rigs/$1 failed:" >&2
    grep -E "^error" -A8 "$log" | head -60 >&2
    return 1
  fi
}

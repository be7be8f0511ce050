# sourced by the check scripts
source /opt/vp/env.sh 2>/dev/null
export CARGO_INCREMENTAL=0 CARGO_NET_OFFLINE=true
export BUILD=/verif/build
export RUST_BACKTRACE=0
mkdir -p "$BUILD" /verif/evidence /verif/replays

build_core() {
  local log="$BUILD/core.log"
  if ! (cd /verif/harness/core && CARGO_TARGET_DIR="$BUILD/core" cargo build --offline --locked >"$log" 2>&1); then
    echo "BUILD-FAILED harness/core" >&2
    grep -E -A6 "^error" "$log" | head -60 >&2
    return 1
  fi
}

build_cli() {
  local log="$BUILD/cli.log"
  if ! (cd /verif/harness/cli && CARGO_TARGET_DIR="$BUILD/cli" cargo build --offline --locked >"$log" 2>&1); then
    echo "BUILD-FAILED harness/cli" >&2
    grep -E -A6 "^error" "$log" | head -60 >&2
    return 1
  fi
  if [ ! -e "$BUILD/shim.so" ] || [ /verif/harness/shim/shim.c -nt "$BUILD/shim.so" ]; then
    gcc -O1 -shared -fPIC -o "$BUILD/shim.so" /verif/harness/shim/shim.c -ldl || return 1
  fi
}

# build_san address|thread <dir>: the monitors, the code under test, its dependencies and the standard
# library with a sanitizer
build_san() {
  local log="$BUILD/$2.log" cfg=""
  [ "$1" = thread ] && cfg="--cfg crossbeam_sanitize_thread"
  if ! (cd /verif/harness/core && RUSTFLAGS="-Zsanitizer=$1 -Cforce-frame-pointers=yes $cfg" CARGO_TARGET_DIR="$BUILD/$2" \
      cargo +nightly build --offline --locked -Zbuild-std --target x86_64-unknown-linux-gnu >"$log" 2>&1); then
    echo "BUILD-FAILED $1 sanitizer" >&2
    grep -E -A6 "^error" "$log" | head -60 >&2
    return 1
  fi
}

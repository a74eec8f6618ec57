#!/bin/bash
# Builds the simulator and, from /repo's current working tree, the instrumented server and probe.
# (With the argument "probe": also the client probe.)
# Everything goes to /verif/.build (ignored by git); nothing is written below /repo.
set -e
here="$(cd "$(dirname "$0")/.." && pwd)"
B="$here/.build"
mkdir -p "$B/lib"
exec 9>"$B/lock"
flock 9
. /opt/vp/env.sh
export CARGO_NET_OFFLINE=true
export SIM_LIB="$B/lib"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
# As in a debug build, so that a sum too large for its type is not passed over.
sut='CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS=true CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS=true'
if [ ! -e "$B/lib/libsim.so" ] || [ "$here/sim/libsim.c" -nt "$B/lib/libsim.so" ]; then
  gcc -O2 -g -shared -fPIC -ftls-model=initial-exec -Wl,-soname,libsim.so -o "$B/lib/libsim.so.tmp" "$here/sim/libsim.c" -ldl -lpthread
  mv "$B/lib/libsim.so.tmp" "$B/lib/libsim.so"
fi
chmod +x "$here/tools/wrap.sh"
(
  cd "$here/dst"
  CARGO_TARGET_DIR="$B/dst" cargo build --release --offline --quiet >"$B/dst.log" 2>&1
) &
p1=$!
(
  cd /repo
  env $sut RUSTC_WRAPPER="$here/tools/wrap.sh" CARGO_TARGET_DIR="$B/sut" cargo build --release --locked --offline --quiet -p juno_axum >"$B/sut.log" 2>&1
) &
p2=$!
p3=
if [ "$1" = probe ]; then
  # The client library alone, with the versions of the repository's lock file.
  wait $p2 || true
  cp /repo/Cargo.lock "$here/probe/Cargo.lock"
  (
    cd "$here/probe"
    env $sut RUSTC_WRAPPER="$here/tools/wrap.sh" CARGO_TARGET_DIR="$B/sut" cargo build --release --offline --quiet >"$B/probe.log" 2>&1
  ) &
  p3=$!
fi
r=0
wait $p1 || { echo "building the simulator failed:" >&2; tail -30 "$B/dst.log" >&2; r=2; }
wait $p2 || { echo "building the server failed:" >&2; tail -30 "$B/sut.log" >&2; r=2; }
[ -z "$p3" ] || wait $p3 || { echo "building the probe failed:" >&2; tail -30 "$B/probe.log" >&2; r=2; }
exit $r

#!/bin/bash
# Builds the simulator against /repo's working tree.
cd /verif/sim || exit 2
mkdir -p target
exec 9>target/.lock
flock 9
unset RUSTFLAGS CARGO_BUILD_RUSTFLAGS RUSTC_WRAPPER CARGO_TARGET_DIR
# what the code is, not when it was written
now=$( (cd /repo && find src build.rs Cargo.toml Cargo.lock -type f 2>/dev/null | LC_ALL=C sort | xargs sha256sum; sha256sum /verif/sim/wrap.sh) | sha256sum | cut -d' ' -f1)
if [ "$(cat target/.repo-stamp 2>/dev/null)" != "$now" ]; then
  rm -f target/.repo-stamp
  cargo clean --offline -p typelalr >/dev/null 2>&1
fi
if ! cargo build --offline >target/build.log 2>&1; then
  grep -E "^error" -A12 target/build.log | head -60
  echo "the simulator does not build against /repo"
  exit 2
fi
echo "$now" >target/.repo-stamp

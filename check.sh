#!/bin/bash
# check.sh build        builds the harness against /repo's working tree
# check.sh Cnn          builds, then decides one property (VERIF_TIER, VERIF_SEED)
# check.sh replay FILE  builds, then runs one recorded case again
# Exit 0: held; 1: VIOLATION line printed; 2: could not build; 3: no answer in time.
cd "$(dirname "$0")" || exit 2
export HOME=/root VERIF_DIR="$PWD" RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
export PATH="/root/.cargo/bin:$PATH"
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS
build() {
  # Cargo decides by timestamps whether /repo changed: make it always rebuild the crate under test.
  find "$PWD/harness/target/release/.fingerprint" -maxdepth 1 -name 'rusty_genes-*' -exec rm -r {} + 2>/dev/null
  ( cd harness && cargo build --release --offline --quiet 2>build.log ) || { cat harness/build.log; echo "the harness does not build against /repo"; exit 2; }
}
build
case "$1" in
  build) ;;
  replay) exec harness/target/release/harness replay "$2" ;;
  *) exec harness/target/release/harness run "$1" ;;
esac

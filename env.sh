# Sourced by check.sh and setup.sh.
export HOME=${HOME:-/root}
export PATH=/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:$PATH
VERIF=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
export VERIF_DIR=$VERIF
export REPO_SRC=${REPO_SRC:-/repo/src}
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
unset CARGO_BUILD_TARGET RUST_BACKTRACE CARGO_PROFILE_DEV_DEBUG
export RUSTFLAGS="--cap-lints=allow"
STABLE=1.88.0-x86_64-unknown-linux-gnu
NIGHTLY=nightly
# cargo decides by mtime: forget the crate under test so the current tree is compiled
forget() { rm -rf "$1"/debug/.fingerprint/serde_yaml-* "$1"/*/debug/.fingerprint/serde_yaml-* 2>/dev/null || true; }
build_main() {
  export CARGO_TARGET_DIR=$VERIF/target/main
  forget "$CARGO_TARGET_DIR"
  (cd "$VERIF/harness" && RUSTUP_TOOLCHAIN=$STABLE cargo build --offline -q)
}
# The same harness with AddressSanitizer (nightly).
build_asan() {
  export CARGO_TARGET_DIR=$VERIF/target/asan
  forget "$CARGO_TARGET_DIR"
  (cd "$VERIF/harness" && RUSTUP_TOOLCHAIN=$NIGHTLY RUSTFLAGS="--cap-lints=allow -Zsanitizer=address" \
    cargo build --offline -q --target x86_64-unknown-linux-gnu)
}
# The same harness for the interpreter.  No --cap-lints here: cargo learns which
# crate types the target lacks from a warning.
miri_env() {
  unset RUSTC_WRAPPER
  export XDG_CACHE_HOME=$VERIF/target/miri-cache CARGO_TARGET_DIR=$VERIF/target/miri RUSTUP_TOOLCHAIN=$NIGHTLY
  export RUSTFLAGS="-Awarnings -Adangerous-implicit-autorefs -Aarithmetic-overflow -Aunconditional-panic -Aoverflowing-literals -Aderef-nullptr -Ainvalid-reference-casting -Amutable-transmutes -Aenum-intrinsics-non-enums -Ainvalid-null-arguments -Auseless-deprecated -Alet-underscore-lock -Aundropped-manually-drops"
  export MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-ignore-leaks"
}
build_miri() {
  (
    miri_env
    rm -rf "$CARGO_TARGET_DIR"/miri/*/debug/.fingerprint/serde_yaml-* 2>/dev/null
    cd "$VERIF/harness" || exit 1
    cargo miri setup -q && timeout 300 cargo miri run --offline -q -- --one C19 quick mappings 0 1
  )
}

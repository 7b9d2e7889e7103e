# Sourced by check.sh: offline toolchain and rebuild triggers.
export PATH=/root/.cargo/bin:/usr/local/bin:/usr/local/sbin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
unset CARGO_TARGET_DIR CARGO_BUILD_TARGET_DIR RUSTFLAGS RUSTC_WRAPPER CARGO_ENCODED_RUSTFLAGS
if [ -d /root/.rustup/toolchains/1.98.1-x86_64-unknown-linux-gnu ]; then
  export RUSTUP_TOOLCHAIN=1.98.1-x86_64-unknown-linux-gnu
fi
# cargo does not see edits of the vendored C (the build scripts only watch environment variables),
# so an unused macro with a hash of every C file forces a rebuild exactly when they change
C_HASH=$(cd /repo/pqcrypto && find pqclean/common pqclean/crypto_sign pqcrypto-internals/cfiles pqcrypto-internals/include -type f \
  -print0 2>/dev/null | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum | cut -c1-16)
export CFLAGS="-DVERIF_C_SOURCES_$C_HASH"

export HOME=/root LANG=C.UTF-8
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUST_LOG RUSTFLAGS CARGO_TARGET_DIR RUSTC_WRAPPER RUSTUP_TOOLCHAIN CARGO_BUILD_TARGET

export RUSTUP_TOOLCHAIN=1.95 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUST_BACKTRACE=0 RUSTC_WRAPPER=
export RUSTFLAGS="--cfg bladeink_verif" CARGO_TARGET_DIR=/verif/target

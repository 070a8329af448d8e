export RUSTUP_TOOLCHAIN=1.84-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=/verif/target CARGO_PROFILE_DEV_DEBUG=0 CARGO_INCREMENTAL=0

export RUSTUP_TOOLCHAIN=1.76.0 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=/verif/target RUSTFLAGS="--cfg bonsai_verif"

export RUSTUP_TOOLCHAIN=nightly-2023-11-04 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never

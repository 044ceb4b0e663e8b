export RUSTUP_TOOLCHAIN=1.70.0 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTFLAGS="--cfg tp_verif -Awarnings" HOME=/root PATH=/root/.cargo/bin:$PATH

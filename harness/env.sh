export HOME=/root
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= DOCS_RS=1
export RUNTIME_SNAPSHOT_PATH=runtime-snapshot.bin # relative: there is none where the host usually runs
export CARGO_TARGET_DIR=/verif/build/target

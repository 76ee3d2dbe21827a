# Sourced by every check: toolchain, offline mode, and a build directory of our own.
export HOME=${HOME:-/root}
export PATH="/usr/local/cargo/bin:$HOME/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin${PATH:+:$PATH}"
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export CARGO_INCREMENTAL=1 RUSTC_WRAPPER= LANG=C.UTF-8
export CARGO_TARGET_DIR=/verif/target
export LLVM_SYS_140_PREFIX=/usr/lib/llvm-14
export PYO3_PYTHON=/usr/bin/python3.12
export PYTHONDONTWRITEBYTECODE=1

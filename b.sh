cd /verif/rsx && CARGO_TARGET_DIR=/verif/build/rsx cargo build --offline --release 2>&1 | grep -E "^error" -A9

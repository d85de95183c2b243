export CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR="$VERIF_DIR/target"
build_monitors() {
    (cd "$VERIF_DIR/harness" && cargo build --release --offline --locked --quiet 2> "$VERIF_DIR/target/build.log") \
        || { mkdir -p "$VERIF_DIR/target"; (cd "$VERIF_DIR/harness" && cargo build --release --offline --locked --quiet); }
}
build_tools() {
    (cd "$VERIF_DIR/cli" && cargo build --release --offline --locked --quiet --target-dir "$CARGO_TARGET_DIR/cli")
}

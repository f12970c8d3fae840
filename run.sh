#!/bin/bash
# ./run.sh build            build the model checker against /repo's working tree
# ./run.sh <property>       build, then explore (VERIF_TIER=quick|thorough)
# ./run.sh replay <file>    build, then replay one recorded violation
# Exit 0: held. Exit 1 with a VIOLATION line: broken. Anything else: error of the check.
set -u
here=$(cd "$(dirname "$0")" && pwd)
export MC_VERIF="$here" CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR="$here/target"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET RUSTC_WRAPPER
mkdir -p "$CARGO_TARGET_DIR"
build() {
    # Cargo decides by modification time; decide by content, so that a change is never missed.
    local hash stamp="$CARGO_TARGET_DIR/repo.sha256"
    hash=$(cd /repo && find src compose_spec_macros Cargo.toml -type f -not -path '*/target/*' -print0 | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum)
    if [ -f "$stamp" ] && [ "$(cat "$stamp")" != "$hash" ]; then
        (cd "$here/harness" && cargo clean --release --offline -p compose_spec -p compose_spec_macros >/dev/null 2>&1)
    fi
    rm -f "$stamp"
    (cd "$here/harness" && cargo build --release --offline --locked >"$CARGO_TARGET_DIR/build.log" 2>&1) || {
        tail -n 40 "$CARGO_TARGET_DIR/build.log" >&2
        echo "the model checker does not build against /repo" >&2
        return 2
    }
    printf '%s\n' "$hash" >"$stamp"
}
(
    flock 9
    build
) 9>"$CARGO_TARGET_DIR/run.lock" || exit 2
# What uses up all memory is to end as an abort, which is reported, not to be ended from outside.
ulimit -v 24000000
case "${1:-build}" in
build) exit 0 ;;
replay) exec "$CARGO_TARGET_DIR/release/mc" replay "$2" ;;
*) exec "$CARGO_TARGET_DIR/release/mc" run "$1" ;;
esac

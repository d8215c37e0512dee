#!/bin/bash
# check.sh <property>        run the check of a property (VERIF_TIER=quick|thorough, VERIF_SEED=n)
# check.sh setup             build the driver only
# check.sh replay <file>     run the recorded input of a violation again
here=$(cd "$(dirname "$0")" && pwd)
export MM_VERIF=$here
export PATH=$PATH:/root/.cargo/bin:/usr/local/cargo/bin
if ! out=$(env -u RUSTFLAGS -u CARGO_TARGET_DIR CARGO_TERM_COLOR=never cargo build --offline --quiet --manifest-path "$here/harness/driver/Cargo.toml" --target-dir "$here/target/driver" 2>&1); then
    echo "$out" >&2
    echo "check: the driver does not build" >&2
    exit 2
fi
exec "$here/target/driver/debug/driver" "$@"

#!/bin/bash
# d.sh <ids>: run the db checks without the source-hash bookkeeping.
. /opt/vp/env.sh
export CARGO_TARGET_DIR=/verif/target VERIF_ROOT=/verif
cd /verif/mc/db && cargo build --release --offline -q 2>&1 | grep -E '^error' -A12 | head -60
ulimit -v 25165824; ulimit -c 0
for i in "$@"; do timeout 3600 /verif/target/release/db $i 2>&1 | cut -c1-1500 | tail -${TAIL:-30}; done

#!/bin/bash
# st.sh: the repository's own grovedb/merk tests against the storage stand-ins,
# in a scratch copy.
. /opt/vp/env.sh
mkdir -p /tmp/rc; rsync -a --delete --exclude target --exclude .git --exclude .cargo --exclude Cargo.lock /repo/ /tmp/rc/
mkdir -p /tmp/rc/.cargo; cp /verif/mc/.cargo/config.toml /tmp/rc/.cargo/
cd /tmp/rc && CARGO_TARGET_DIR=/tmp/rct timeout 1500 cargo test --offline -q -p grovedb -p grovedb-merk -p grovedb-storage --no-fail-fast >/tmp/st.log 2>&1
grep -E '^test result|^    [a-z:_0-9]+$|^error' /tmp/st.log | sort | uniq

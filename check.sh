#!/bin/bash
# check.sh <property> [--replay <file>]: rebuild the checker against /repo's
# working tree and run it. Exit 0: held on everything explored; 1: violation.
# check.sh --setup: build everything once.
here="$(cd "$(dirname "$0")" && pwd)"
export VERIF_ROOT="$here"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export CARGO_TARGET_DIR="$here/target"
export CARGO_NET_OFFLINE=true
unset RUSTFLAGS
build() { # package
    (cd "$here/mc/$1" && cargo build --release --offline -q 2>"$here/target/build-$1.log") || {
        cat "$here/target/build-$1.log" >&2
        echo "build of mc/$1 failed" >&2
        exit 2
    }
}
mkdir -p "$here/target/src-hash" "$here/evidence"
# cargo trusts modification times; a restored or patched tree can carry old
# ones, so forget what was built from sources with another content.
for toml in /repo/*/Cargo.toml "$here"/shims/*/Cargo.toml; do
    dir="$(dirname "$toml")"
    h="$(find "$dir" \( -name '*.rs' -o -name Cargo.toml \) -not -path '*/target/*' -print0 |
        sort -z | xargs -0 sha1sum | sha1sum)"
    f="$here/target/src-hash/$(basename "$dir")"
    if [ "$(cat "$f" 2>/dev/null)" != "$h" ]; then
        name="$(sed -n 's/^name *= *"\(.*\)"/\1/p' "$toml" | head -1)"
        find "$here/target/release/.fingerprint" -maxdepth 1 -name "$name-*" \
            -exec rm -rf {} + 2>/dev/null
        echo "$h" >"$f"
    fi
done
if [ "$1" = "--setup" ]; then
    build light
    [ -f "$here/mc/db/Cargo.toml" ] && build db
    exit 0
fi
id="$1"
case "$id" in
    C*) pkg=light ;;
    D*) pkg=db ;;
    *) echo "unknown property $id" >&2; exit 2 ;;
esac
build $pkg
ulimit -v 25165824
ulimit -c 0
limit=800
[ "$VERIF_TIER" = thorough ] && limit=7200
timeout $limit "$here/target/release/$pkg" "$@"
rc=$?
# A stack overflow, an abort on a failed allocation or an endless loop of the
# code under test ends the checker itself: that is a violation as well.
if [ $rc -eq 124 ] || [ $rc -ge 132 -a $rc -le 139 -a $rc -ne 137 ]; then
    mkdir -p "$here/evidence/replay"
    f="$here/evidence/replay/$id.txt"
    echo "property: $id
label: (the whole exploration)
message: the process under test ended with status $rc" >"$f"
    echo "VIOLATION property=$id replay=$f"
    exit 1
fi
exit $rc

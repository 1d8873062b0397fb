#!/bin/bash
# mkseed.sh <seed id> <property> <needs> <breaks> <dependency lines>: main.rs on
# stdin; the change is what /repo's working tree holds, and is undone.
s=/verif/seeded/$1; mkdir -p $s
git -C /repo diff >$s/patch.diff; git -C /repo checkout -q -- .
cat >$s/main.rs
P="$2" N="$3" B="$4" python3 -c "
import json,os
json.dump({'property':os.environ['P'],'needs':os.environ['N'],'what_it_breaks':os.environ['B']},open('$s/meta.json','w'),indent=1)"
cat >$s/demo.sh <<'T'
#!/bin/bash
here="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh
d="$(mktemp -d)"
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
cat >"$d/Cargo.toml" <<'E'
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
T
echo "$5" >>$s/demo.sh
cat >>$s/demo.sh <<'T'
[workspace]
E
cd "$d" && CARGO_TARGET_DIR="$d/target" cargo run --offline -q
T
[ -s $s/patch.diff ] || echo "EMPTY PATCH"

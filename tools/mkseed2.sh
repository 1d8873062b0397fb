#!/bin/bash
# mkseed2.sh <seed id> <property> <needs> <breaks> <dependency lines>: like
# mkseed.sh, for demonstrations that need stand-ins for the git dependencies.
/verif/tools/mkseed.sh "$@"
s=/verif/seeded/$1
cp -r /verif/shims $s/shims; cp /verif/mc/db/Cargo.lock $s/
python3 - $s/demo.sh <<'PY'
import sys
p=sys.argv[1]; t=open(p).read()
t=t.replace('mkdir "$d/src"\n','''mkdir "$d/src" "$d/.cargo"
cp "$here/Cargo.lock" "$d/"
cat >"$d/.cargo/config.toml" <<E
CONFIG
E
''')
c=open('/verif/mc/.cargo/config.toml').read()
import re
c=re.sub(r'directory = .*','directory = "$here/shims"',c).strip()
open(p,'w').write(t.replace('CONFIG',c))
PY

#!/bin/bash
# trial.sh <seed id> [checks...]: confirm a planted bug and run checks against
# it (the property's own check by default), then undo it.
s=/verif/seeded/$1; id=$1; shift
p=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
bash "$s/demo.sh" >/tmp/demo.out 2>&1 && echo "$id demo clean: ok" || { echo "$id demo FAILS on the clean tree"; tail -5 /tmp/demo.out; exit 1; }
git apply "$s/patch.diff" || exit 1
trap 'git -C /repo checkout -q -- .' EXIT
/verif/tools/vt.sh
bash "$s/demo.sh" >/tmp/demo.out 2>&1 && echo "$id demo patched: PASSES (bad)" || echo "$id demo patched: fails (good)"
cd /verif
for c in ${@:-$p}; do
    VERIF_TIER=quick ./check.sh $c >/tmp/chk.out 2>&1; rc=$?
    python3 - "$id" "$c" $rc <<'E'
import json,os,sys
p='/verif/tools/caught.json'; d=json.load(open(p)) if os.path.exists(p) else {}
i,c,rc=sys.argv[1:]; l=[x for x in d.get(i,'').split(', ') if x and x!='none' and x!=c]
if rc=='1': l.append(c)
d[i]=', '.join(sorted(l)) or 'none'; json.dump(d,open(p,'w'),indent=1,sort_keys=True)
E
    echo "$id $c rc=$rc $(grep -m1 -E '^what|VIOLATION' /tmp/chk.out | cut -c1-200)"
done

#!/bin/bash
# tryseed.sh ID [PROP...]: applies a planted change to /repo, runs its demo and the checks, undoes it.
id=$1; shift
p=/verif/seeded/$id/patch.diff
cd /repo; [ -z "$(git status --porcelain)" ] || { echo "repo dirty"; exit 1; }
[ -n "$NODEMO" ] || { bash /verif/seeded/$id/demo.sh >/tmp/demo.out 2>&1; echo "demo clean: $?"; }
git apply $p || exit 1
[ -n "$NODEMO" ] || { bash /verif/seeded/$id/demo.sh >/tmp/demo.out 2>&1; echo "demo patched: $?"; tail -2 /tmp/demo.out; }
prop=${@:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")}
cd /verif
for x in $prop; do ./run.py $x 2>&1 | tail -3 | cut -c1-400; done
git -C /repo checkout -q -- .

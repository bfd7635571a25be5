#!/bin/bash
# trybug.sh SEED [PROPERTY] : apply a planted bug to /repo, run its check, undo
d=/verif/seeded/$1; p=${2:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
git -C /repo apply $d/patch.diff || exit 9
cd /verif; /opt/venv/bin/python check.py $p ${@:3} 2>&1 | tail -c 2500; r=${PIPESTATUS[0]}
git -C /repo checkout -- .
echo "exit $r"

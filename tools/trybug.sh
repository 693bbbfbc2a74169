#!/bin/bash
# trybug ID: apply a planted bug to /repo, run its property's check, undo.
d=/verif/seeded/$1
p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
git -C /repo apply $d/patch.diff || exit 9
(cd /verif && ./check $p quick 2>&1 | cut -c1-250 | tail -4; echo "rc ${PIPESTATUS[0]}")
git -C /repo checkout -- .

#!/bin/bash
# trybug.sh ID...: applies a seeded bug to /repo, builds, runs tests, the demo and the property's check; undoes it
for i in "$@"; do d=/verif/seeded/$i; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
git -C /repo apply $d/patch.diff || { echo "$i: does not apply"; continue; }
if [ -z "$NOTEST" ]; then t=$(bash /verif/tools/tests.sh 2>&1 | tail -1); (cd /repo && bash $d/demo.sh >/tmp/demo.out 2>&1); r=$?; else t=-; r=-; fi
c=$(cd /verif && timeout 900 python3 run.py $p 2>&1 | grep -a -m1 -A2 VIOLATION | tr '\n' ' ' | cut -c1-200)
git -C /repo checkout -q -- .
echo "$i [$p] tests: $t | demo rc=$r | check: ${c:-MISSED}"
done
[ -z "$NOTEST" ] && bash /opt/vp/build.sh >/dev/null 2>&1

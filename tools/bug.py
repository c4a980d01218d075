#!/usr/bin/env python3
# usage: bug.py ID PROPERTY FILE <<< "OLD\n====\nNEW\n====\nneeds\n====\nwhat"   (OLD/NEW pairs may be repeated as FILE2 via ID.more)
# creates seeded/ID/{patch.diff,meta.json,demo.sh} from one textual replacement in /repo (undone straight away)
import sys,os,json,subprocess
i,prop,f=sys.argv[1:4]; parts=sys.stdin.read().split('\n====\n')
*reps,needs,what=parts
p='/repo/'+f; s=o=open(p).read()
for a,b in zip(reps[::2],reps[1::2]):
    assert s.count(a.strip('\n'))==1,(s.count(a.strip('\n')),a); s=s.replace(a.strip('\n'),b.strip('\n'))
open(p,'w').write(s); d='/verif/seeded/'+i; os.makedirs(d,exist_ok=True)
diff=subprocess.check_output(['git','-C','/repo','diff'],text=True); open(p,'w').write(o)
open(d+'/patch.diff','w').write(diff); json.dump(dict(property=prop,needs=needs.strip(),what_it_breaks=what.strip()),open(d+'/meta.json','w'),indent=1)
open(d+'/demo.sh','w').write('''#!/bin/bash
# compiles demo.cpp against the library built from /repo and runs it in a scratch directory
D=$(cd "$(dirname "$0")" && pwd); T=/repo/_build/tree/core/build; W=$(mktemp -d /tmp/demo.XXXXXX) || exit 3; trap 'rm -rf -- "$W"' EXIT
g++ -std=c++11 -O1 -w -DHAS_BOOST -include string -include sstream -I core/src -I core/lib -I core/shared "$D/demo.cpp" $T/src/libUtyMap.a -lprotobuf -lz -lpthread -o "$W/demo" || exit 3
cd "$W" && timeout 200 ./demo "$W"
''')
os.chmod(d+'/demo.sh',0o755); print(diff)

#!/bin/bash
# tools/trycs.sh HARNESS NATIVE,... [tier]: the same as try.sh for a managed harness
h=$1; t=${3:-quick}; cd "$(dirname "$0")/.."; python3 build_cs.py $h ${2#-} > /tmp/trycs.log 2>&1 || { tail -30 /tmp/trycs.log; exit 2; }
o=${UTY_BUILD:-build}/cs/$h; d=$(mktemp -d /dev/shm/tryXXXX); s=$(date +%s)
for i in 0 1 2 3 4 5 6 7; do mkdir $d/w$i; ( LD_LIBRARY_PATH=$o timeout ${LIMIT:-850} mono --debug $o/$h.exe --tier $t --shard $i 8 --work $d/w$i --out $d/o$i >$d/l$i 2>&1; echo "rc $? crumb $(tr -d '\0' < $d/o$i.crumb | cut -c1-200)" >> $d/l$i ) & done; wait
grep -h "MC-FAIL\|MC-HANG\|SIG\|Unhandled" $d/l* | cut -c1-${W:-400} | head -${N:-30}; grep -h "^rc" $d/l* | sort | uniq -c
python3 - $d <<'P'
import json,glob,sys
e=t=0;c={}
for f in glob.glob(sys.argv[1]+'/o[0-7]'):
    j=json.load(open(f)); e+=j['evaluations']; t+=j['transitions']
    for k,v in j['counters'].items(): c[k]=c.get(k,0)+v
print('cases',e,'transitions',t,c)
P
echo $(( $(date +%s)-s ))s; case "$d" in /dev/shm/try*) rm -rf "$d";; esac

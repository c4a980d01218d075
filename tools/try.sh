#!/bin/bash
# tools/try.sh HARNESS [tier]: builds a harness and runs it on 8 shards without bookkeeping, printing failures
h=$1; t=${2:-quick}; cd "$(dirname "$0")/.."; exe=$(python3 build.py $h 2>&1 | tail -1 | awk '{print $2}'); [ -x "$exe" ] || { python3 build.py $h | tail -30; exit 2; }
d=$(mktemp -d /dev/shm/tryXXXX); s=$(date +%s)
for i in 0 1 2 3 4 5 6 7; do ( ASAN_OPTIONS=detect_leaks=0 timeout ${LIMIT:-850} $exe --tier $t --shard $i 8 --work $d/w$i --out $d/o$i >$d/l$i 2>&1; echo "rc $? crumb $(tr -d '\0' < $d/o$i.crumb | cut -c1-200)" >> $d/l$i ) & done; wait
grep -h "MC-FAIL\|ERROR: Addr\|MC-HANG\|runtime error\|    #[0-9] .*\(core/src\|core/shared\|core/lib\|/c[0-9][0-9].cpp\)" $d/l* | cut -c1-${W:-400} | head -${N:-30}; grep -h "^rc" $d/l* | sort | uniq -c
python3 - $d <<'P'
import json,glob,sys
e=t=0;c={}
for f in glob.glob(sys.argv[1]+'/o[0-7]'):
    j=json.load(open(f)); e+=j['evaluations']; t+=j['transitions']
    for k,v in j['counters'].items(): c[k]=c.get(k,0)+v
print('cases',e,'transitions',t,c)
P
echo $(( $(date +%s)-s ))s; case "$d" in /dev/shm/try*) rm -rf "$d";; esac

#!/bin/bash
# run.sh <so> <prop> <tier> [limit]: all scenarios in parallel, summary on stdout (developer tool)
cd /verif; export B=${MC_BUILD:-./build}; B=$(realpath $B)
n=$($B/mcrun $B/$1.so $2 $3 list | wc -l)
mkdir -p /tmp/run_$2; rm -f /tmp/run_$2/*
seq 0 $((n-1)) | xargs -P 8 -I{} sh -c "timeout 900 $B/mcrun $B/$1.so $2 $3 run {} ${4:-60} > /tmp/run_$2/{}" 2>/tmp/run_$2.err
cat /tmp/run_$2/* > /tmp/run_$2.txt
python3 - $2 <<'P'
import json,sys
L=[json.loads(l) for l in open(f'/tmp/run_{sys.argv[1]}.txt') if l.startswith('{')]
bad=[l for l in L if not l['ok']]
print(len(L),'scenarios',len(bad),'bad; executions',sum(l['executions'] for l in L),'states',sum(l['states'] for l in L),'images',sum(l['images'] for l in L),'capped',[l['scenario'] for l in L if l['capped']][:9], 'crashcaps',sum(l['crash_caps'] for l in L))
for l in sorted(L,key=lambda l:-l['seconds'])[:4]: print('  slow',l['scenario'],l['seconds'],l['executions'],l['states'])
for l in bad[:6]: print(l['scenario'],'|',l['message'],'| confirmed',l['confirmed'],'| choices',len(l['schedule']), l['image']); print(l['history'])
P
head -5 /tmp/run_$2.err

#!/bin/bash
# Developer helper: run a world built by b.sh.  r.sh C06 [runs] [secs] [seed]
cd /tmp/sim/$1
timeout 900 ./world --seed ${4:-1} --runs ${2:-20000} --secs ${3:-30} --out r.json --save r.replay
echo "== $1 rc=$?"
python3 - <<'P'
import json
d=json.load(open('r.json'))
if d['class']: print({k:d[k] for k in ('class','detail','violating_run','original_choices','minimal_choices','minimise_tries')})
print({k:d[k] for k in ('runs','nontrivial','steps','draws','states','interleavings','search_s','unreproducible')}, round(d['runs']/max(d['search_s'],.001)),'runs/s')
print('faults',d['faults']); print('probes',d['probes'])
P

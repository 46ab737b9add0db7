#!/bin/bash
# try.sh PROP...: runs the checks and summarises the replays
cd "$(dirname "$0")/.."
for p in "$@"; do rm -f replays/$p-*; python3 run.py $p 2>&1 | tail -1 | cut -c1-300; done
python3 - "$@" <<'P'
import json,glob,sys
for p in sys.argv[1:]:
    for f in sorted(glob.glob('replays/%s-*.json'%p)):
        d=json.load(open(f)); print('*', d['case'], f.split('/')[-1][:-5], '::', d['msg'][:350].replace('\n',' '))
P

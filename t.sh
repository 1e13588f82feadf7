#!/bin/bash
# try a harness: t.sh NAME [args]
cd /verif; n=$1; shift
b=$(python3 -c "
import sys; sys.path.insert(0,'lib')
import build
try: print(build.harness('$n', '${VARIANT:-asan}'))
except build.BuildError as e: sys.stderr.write(str(e)); sys.exit(1)
") || exit 1
mkdir -p /tmp/mclog
export ASAN_OPTIONS=detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:exitcode=77:hard_rss_limit_mb=3500:detect_stack_use_after_return=0:handle_abort=1
if [ -n "$RAW" ]; then $b --log /tmp/mclog "$@"; exit; fi
$b --log /tmp/mclog "$@" 2>/tmp/t.err | python3 -c "
import json,sys,os
d=json.load(sys.stdin)
N=int(os.environ.get('NOTE','220'))
for s in d['scopes']:
    print(s['name'],'ex',s['executions']+s['evaluations'],'out',s['outcomes'],'st',s['states'],'wall',s['wall_s'],'capped' if s['capped'] else '','UNCONF %d'%s['unconfirmed'] if s['unconfirmed'] else '')
    for v in s['violations']: print('   ##',v['desc'][:N],'\n      |',v['note'][:N],'\n      ',v['choices'],v['log'])
    if os.environ.get('SAMPLES'):
        for v in s['samples']: print('     ~',v[:1500])
"
grep -v '^ *$' /tmp/t.err | cut -c1-300 | head -20

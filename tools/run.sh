#!/bin/bash
# developer aid: run.sh CRATE ENTRY [k=v ...] [--opt v ...]: executes one harness on the last built bitcode
C=$1 E=$2; shift 2
BC=$(ls -t /verif/build/target-sym/$C/release/deps/${C//-/_}*.bc | head -1)
A=(); while [ $# -gt 0 ]; do case $1 in --*) A+=("$1" "$2"); shift 2;; *) A+=(--param "$1"); shift;; esac; done
D=$(mktemp -d)
S=$(date +%s.%N)
timeout 1200 /verif/build/engine/symex --module $BC --entry $E --out $D/o -j 8 --max-secs 900 "${A[@]}" 2>$D/err
cp $D/err /tmp/w/err; tail -3 $D/err
cat $D/o* | python3 -c "
import sys,json,collections
t=collections.Counter(); v=[]; st=[]
for l in sys.stdin:
  try: d=json.loads(l)
  except Exception: print('bad line',l[:100]); continue
  if d['t']=='stats':
    for k,x in d.items():
      if k not in('t','tag'): t[k]+=x
    st.append((d['tag'],d['z3_time_ms'],d['paths_ok']))
  elif d['t']=='viol': t['V:'+d['kind']+':'+d['msg'][:150]]+=1; v.append(d)
print({k:x for k,x in t.items() if x})
for d in v[:3]: print(d['kind'],d['msg'],d.get('inputs'))
print(st)
"
echo "$(echo "$(date +%s.%N) - $S" | bc)s"
/bin/rm -rf $D

#!/bin/bash
# conc.sh PID [budget] [tier] [seed]: run the concrete contracts on 8 processes, terse output
cd /verif
export MPLBACKEND=Agg MPLCONFIGDIR=/opt/vp/mpl CUDA_VISIBLE_DEVICES= TF_CPP_MIN_LOG_LEVEL=3 JAX_PLATFORMS=cpu PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 TF_NUM_INTRAOP_THREADS=1 TF_NUM_INTEROP_THREADS=1 JAX_ENABLE_X64=1
d=$(mktemp -d)
for i in 0 1 2 3 4 5 6 7; do /opt/venv/bin/python conc/run.py --pid $1 --budget ${2:-30} --tier ${3:-quick} --seed ${4:-1} --part $i/8 --out $d/$i.json 2> $d/$i.err & done; wait
python3 - $d <<'P'
import json,sys,glob
n=0
for i in range(8):
    try: r=json.load(open(f'{sys.argv[1]}/{i}.json'))
    except Exception as e: print(i,'CRASH',open(f'{sys.argv[1]}/{i}.err').read()[-600:]); continue
    n+=r['evaluations']
    for f in r['failures']: print('FAIL',json.dumps(f['case'])[:250],f['message'][:300])
    for f in r['errors'][:2]: print('ERR',json.dumps(f['case'])[:200],f['error'][-500:])
    if not r['complete']: print(i,'budget exhausted')
print(n,'evaluations')
P
rm -rf $d

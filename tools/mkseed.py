"""helper to write /verif/seeded/<id>: mk(id, prop, file, [(old,new)...], needs, breaks, demo_py)"""
import json, os, subprocess, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

DEMO = '''#!/bin/bash
# exit 0 when the property holds on the sample, nonzero otherwise
export MPLBACKEND=Agg TF_CPP_MIN_LOG_LEVEL=3 JAX_PLATFORMS=cpu CUDA_VISIBLE_DEVICES= PYTHONDONTWRITEBYTECODE=1
HERE="$(cd "$(dirname "$0")" && pwd)"
PYTHONPATH="$PWD" exec /opt/venv/bin/python "$HERE/demo.py"
'''


def mk(sid, prop, file, edits, needs, breaks, demo):
    d = V + '/seeded/' + sid
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix='mk')
    files = file if isinstance(file, list) else [file] * len(edits)
    orig = {}
    for f, (o, n) in zip(files, edits):
        p = w + '/b/' + f
        if f not in orig:
            src = open('/repo/' + f).read()
            orig[f] = src
            for ab in 'ab':
                q = w + '/' + ab + '/' + f
                os.makedirs(os.path.dirname(q), exist_ok=True)
                open(q, 'w').write(src)
                shutil.copymode('/repo/' + f, q)
        s = open(p).read()
        assert s.count(o) == 1, (sid, f, s.count(o), o)
        open(p, 'w').write(s.replace(o, n))
    r = subprocess.run(['git', 'diff', '--no-index', '--no-prefix', 'a', 'b'], cwd=w, capture_output=True, text=True)
    assert r.stdout
    open(d + '/patch.diff', 'w').write(r.stdout)
    open(d + '/demo.sh', 'w').write(DEMO)
    open(d + '/demo.py', 'w').write(demo)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    shutil.rmtree(w)

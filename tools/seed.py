"""Check a planted bug: seed.py ID [test files...]: scratch copy of /repo, apply patch, demo before/after, tests, and the property's check."""
import json, os, subprocess, sys, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, MPLBACKEND='Agg', TF_CPP_MIN_LOG_LEVEL='3', JAX_PLATFORMS='cpu', CUDA_VISIBLE_DEVICES='', PYTHONDONTWRITEBYTECODE='1')
for kk in ('PYTHONPATH',):
    ENV.pop(kk, None)


def main():
    sid = sys.argv[1]
    tests = sys.argv[2:]
    sd = V + '/seeded/' + sid
    d = tempfile.mkdtemp(prefix='seed')
    shutil.rmtree(d)
    subprocess.run(['git', '-C', '/repo', 'worktree', 'add', '--detach', d, 'HEAD'], check=True, capture_output=True)
    try:
        r0 = subprocess.run(['bash', sd + '/demo.sh'], cwd=d, env=ENV, capture_output=True, text=True)
        a = subprocess.run(['git', 'apply', sd + '/patch.diff'], cwd=d, capture_output=True, text=True)
        r1 = subprocess.run(['bash', sd + '/demo.sh'], cwd=d, env=ENV, capture_output=True, text=True)
        print(sid, 'apply', a.returncode, a.stderr[:200], 'demo before', r0.returncode, 'after', r1.returncode, (r0.stdout + r0.stderr)[-200:] if r0.returncode else '',
              '| after:', (r1.stdout + r1.stderr).strip()[-150:])
        if tests:
            t = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-n', '6'] + tests, cwd=d,
                               env=dict(ENV, PYTHONPATH=d, OMP_NUM_THREADS='1'), capture_output=True, text=True)
            print('tests', t.returncode, t.stdout.strip().splitlines()[-1][:200])
        pid = json.load(open(sd + '/meta.json'))['property']
        claimed = [c['property'] if 'property' in c else c.get('id') for c in json.load(open(V + '/MANIFEST.json')).get('checks', [])]
        if os.environ.get('CHECK', '1') == '1':
            c = subprocess.run(['python3-vt', V + '/check.py', pid], cwd=V, capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=d))
            print('check', pid, c.returncode, c.stdout.strip()[-300:], c.stderr.strip()[-300:])
    finally:
        subprocess.run(['git', '-C', '/repo', 'worktree', 'remove', '--force', d])


main()

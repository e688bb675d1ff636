"""List AST mutants of a /repo module that survive the given test files (inspiration for planted bugs).
usage: survive.py repo_module.py "tests/a.py tests/b.py" [func-substr]"""
import os, sys, shutil, subprocess, tempfile
import ast
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mutate import mutants
from concurrent.futures import ThreadPoolExecutor

ENV = dict(os.environ, MPLBACKEND='Agg', TF_CPP_MIN_LOG_LEVEL='3', JAX_PLATFORMS='cpu', CUDA_VISIBLE_DEVICES='', OMP_NUM_THREADS='1',
           OPENBLAS_NUM_THREADS='1', PYTHONDONTWRITEBYTECODE='1', TF_NUM_INTRAOP_THREADS='1', TF_NUM_INTEROP_THREADS='1')


def main():
    rm, tests = sys.argv[1], sys.argv[2].split()
    only = sys.argv[3] if len(sys.argv) > 3 else ''
    src = open('/repo/parallel_control/' + rm).read()

    def one(a):
        desc, t = a
        d = tempfile.mkdtemp(prefix='surv')
        try:
            shutil.copytree('/repo/parallel_control', d + '/parallel_control')
            shutil.copytree('/repo/tests', d + '/tests')
            open(d + '/parallel_control/' + rm, 'w').write(ast.unparse(t))
            try:
                r = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '--timeout=200'] + tests,
                                   cwd=d, env=dict(ENV, PYTHONPATH=d), capture_output=True, timeout=300)
                ok = r.returncode == 0
            except subprocess.TimeoutExpired:
                ok = False
            if ok:
                print(desc[:200], flush=True)
            return ok
        finally:
            shutil.rmtree(d)
    with ThreadPoolExecutor(7) as ex:
        res = list(ex.map(one, mutants(ast.parse(src), only)))
    print('survivors', sum(res), 'of', len(res))


main()

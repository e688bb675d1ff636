"""Self-test of the verifier: apply simple AST mutations to a /repo module (in a scratch copy) and list the mutants
that every unit still proves.  usage: python3-vt tools/mutate.py contracts_module repo_module.py [func-substring]"""
import ast
import copy
import os
import shutil
import subprocess
import sys
import tempfile
import json

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def mutants(tree, only):
    """yield (description, mutated tree)"""
    sites = []

    def walk(node, qual):
        for ch in ast.iter_child_nodes(node):
            q = qual
            if isinstance(ch, (ast.FunctionDef, ast.ClassDef)):
                q = qual + '.' + ch.name
            sites.append((q, ch))
            walk(ch, q)
    walk(tree, '')
    n = len(sites)
    for i in range(n):
        q, nd = sites[i]
        if only and only not in q:
            continue
        kinds = []
        if isinstance(nd, ast.BinOp):
            if isinstance(nd.op, ast.Add):
                kinds.append('+ -> -')
            elif isinstance(nd.op, ast.Sub):
                kinds.append('- -> +')
            elif isinstance(nd.op, ast.Mult):
                kinds.append('* -> +')
            elif isinstance(nd.op, ast.MatMult):
                kinds.append('swap operands')
        if isinstance(nd, ast.Attribute) and nd.attr == 'T':
            kinds.append('drop .T')
        if isinstance(nd, ast.Constant) and isinstance(nd.value, (int, float)) and not isinstance(nd.value, bool):
            kinds.append('const+1')
        if isinstance(nd, ast.Compare):
            kinds.append('negate/adjust compare')
        if isinstance(nd, ast.UnaryOp) and isinstance(nd.op, ast.USub):
            kinds.append('drop unary minus')
        if isinstance(nd, ast.Expr) and isinstance(nd.value, ast.Call):
            kinds.append('delete statement')
        if isinstance(nd, ast.Subscript) and isinstance(nd.slice, ast.Name):
            kinds.append('index k -> 0')
        if isinstance(nd, ast.Return) and isinstance(nd.value, ast.Tuple) and len(nd.value.elts) >= 2:
            kinds.append('swap returned')
        if isinstance(nd, ast.Call) and isinstance(nd.func, ast.Name) and nd.func.id == 'reversed':
            kinds.append('drop reversed')
        for kd in kinds:
            t = copy.deepcopy(tree)
            ss = []

            def w2(node, qual):
                for ch in ast.iter_child_nodes(node):
                    ss.append((node, ch))
                    w2(ch, qual)
            w2(t, '')
            par, x = ss[i]

            def repl(new):
                for f, v in ast.iter_fields(par):
                    if v is x:
                        setattr(par, f, new)
                    elif isinstance(v, list):
                        for k in range(len(v)):
                            if v[k] is x:
                                v[k] = new
            if kd == '+ -> -':
                x.op = ast.Sub()
            elif kd == '- -> +':
                x.op = ast.Add()
            elif kd == '* -> +':
                x.op = ast.Add()
            elif kd == 'swap operands':
                x.left, x.right = x.right, x.left
            elif kd == 'drop .T':
                repl(x.value)
            elif kd == 'const+1':
                x.value = x.value + 1
            elif kd == 'negate/adjust compare':
                m = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt,
                     ast.Is: ast.IsNot, ast.IsNot: ast.Is}
                if type(x.ops[0]) not in m:
                    continue
                x.ops[0] = m[type(x.ops[0])]()
            elif kd == 'drop unary minus':
                repl(x.operand)
            elif kd == 'delete statement':
                repl(ast.Pass())
            elif kd == 'index k -> 0':
                x.slice = ast.Constant(0)
            elif kd == 'swap returned':
                e = x.value.elts
                e[0], e[1] = e[1], e[0]
            elif kd == 'drop reversed':
                repl(x.args[0])
            ast.fix_missing_locations(t)
            yield '%s:%s %s: %s' % (q, getattr(nd, 'lineno', '?'), kd, ast.unparse(nd)[:90]), t


def main():
    cm, rm = sys.argv[1], sys.argv[2]
    only = sys.argv[3] if len(sys.argv) > 3 else ''
    units = sys.argv[4] if len(sys.argv) > 4 else ''
    step = int(os.environ.get('STEP', '1'))
    d = tempfile.mkdtemp(prefix='mut')
    shutil.copytree('/repo/parallel_control', d + '/parallel_control')
    path = d + '/parallel_control/' + rm
    src = open(path).read()
    tree = ast.parse(src)
    from concurrent.futures import ThreadPoolExecutor
    muts = list(mutants(tree, only))[::step]
    print(len(muts), 'mutants')

    def run(k_m):
        k, (desc, t) = k_m
        dd = '%s/m%d' % (d, k)
        shutil.copytree(d + '/parallel_control', dd + '/parallel_control')
        open(dd + '/parallel_control/' + rm, 'w').write(ast.unparse(t))
        env = dict(os.environ, VERIF_REPO=dd)
        try:
            p = subprocess.run(['python3-vt', '-m', 'vc.runner', cm] + ([units] if units else []), cwd=HERE, env=env,
                               capture_output=True, text=True, timeout=400)
            lines = [l for l in p.stdout.splitlines() if l and not l.startswith(' ')]
        except subprocess.TimeoutExpired:
            lines = ['unsupported timeout']
        shutil.rmtree(dd)
        st = {}
        for l in lines:
            st[l.split()[0]] = st.get(l.split()[0], 0) + 1
        return desc, st, lines
    with ThreadPoolExecutor(int(os.environ.get('JOBS', '4'))) as ex:
        tot = {}
        for desc, st, lines in ex.map(run, enumerate(muts)):
            key = 'refuted' if 'refuted' in st else 'unknown' if 'unknown' in st else 'unsupported' if 'unsupported' in st else \
                ('proved' if st else 'CRASH')
            tot[key] = tot.get(key, 0) + 1
            if key in ('proved', 'CRASH'):
                print('SURVIVES', desc, st)
            elif os.environ.get('ALL'):
                print(key, desc, [l for l in lines if not l.startswith('proved')][:1])
            sys.stdout.flush()
        print(tot)
    shutil.rmtree(d)


if __name__ == '__main__':
    main()

"""setup: verifies that the tools the checks need are present (nothing to build)."""
import importlib, subprocess, sys
for m in ('z3', 'numpy', 'sympy'):
    importlib.import_module(m)
r = subprocess.run(['/opt/venv/bin/python', '-c', 'import numpy, scipy'], capture_output=True)
sys.exit(r.returncode)

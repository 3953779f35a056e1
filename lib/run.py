#!/usr/bin/env python3
"""run.py CNN [--tier quick|thorough] [--replay FILE] [-v]: build from /repo's working tree, then explore."""
import os, subprocess, sys, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/cantera-venv/bin/python'


def env():
    e = dict(os.environ)
    for k in ('PYTHONPATH', 'LD_LIBRARY_PATH'):
        e.pop(k, None)
    e.update(LD_LIBRARY_PATH=f'{V}/build/o', PYTHONPATH=f'{V}/build/py:{V}/lib:{V}/checks', CANTERA_DATA='/repo/data',
             OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
             MPLBACKEND='Agg', VERIF_ENV='1')
    return e


def main():
    prop = sys.argv[1]
    if not os.environ.get('VERIF_ENV'):
        src = open(f'{V}/checks/{prop.lower()}.py').read()
        m = re.search(r'^BUILD\s*=\s*(\[.*?\])', src, re.M)
        targets = eval(m.group(1)) if m else ['py']
        r = subprocess.run([sys.executable, f'{V}/lib/build.py'] + targets)
        if r.returncode:
            print('build failed')
            sys.exit(3)
        os.execve(PY, [PY, f'{V}/lib/run.py'] + sys.argv[1:], env())
    sys.path.insert(0, f'{V}/lib')
    import mc
    sys.exit(mc.main(prop, sys.argv[2:]))


main()

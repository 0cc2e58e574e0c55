"""dev/mkseed.py FILE [ids]: builds /verif/seeded/<id> from (id, prop, edits,
needs, breaks, demo) tuples and confirms them in a scratch copy."""
import json
import os
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
ENV = {**os.environ, 'PYTHONDONTWRITEBYTECODE': '1', 'MPLBACKEND': 'Agg',
       'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1',
       'MPLCONFIGDIR': '/opt/vp/mplconfig'}
SH = '''#!/bin/bash
# cwd is the repository; exit 0 if the property holds on this scenario
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" MPLBACKEND=Agg
exec /opt/venv/bin/python "$here/demo.py"
'''


def sh(cmd, cwd, **kw):
  return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True,
                        timeout=600, env={**ENV, 'PYTHONPATH': cwd}, **kw)


def make(sid, prop, edits, needs, breaks, demo):
  w = f'/tmp/seed.{sid}'
  shutil.rmtree(w, ignore_errors=True)
  subprocess.run(['git', 'clone', '-q', '/repo', w], check=True)
  try:
    for f, old, new in edits:
      p = f'{w}/causal_effect_bandits/{f}'
      s = open(p).read()
      if s.count(old) != 1:
        return f'{sid}: {s.count(old)} matches in {f}: {old[:50]!r}'
      open(p, 'w').write(s.replace(old, new))
    diff = sh(['git', 'diff'], w).stdout
    d = f'{VERIF}/seeded/{sid}'
    os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.py', 'w').write(demo.lstrip('\n'))
    open(d + '/demo.sh', 'w').write(SH)
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks},
              open(d + '/meta.json', 'w'), indent=1)
    open(d + '/meta.json', 'a').write('\n')
    bad = sh(['bash', d + '/demo.sh'], w)
    tests = sh([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-p',
                'no:xdist', '--randomly-seed=0', '--randomly-dont-reorganize'],
               w)
    good = sh(['bash', d + '/demo.sh'], '/repo')
    c = subprocess.run([sys.executable, VERIF + '/sa/run.py', prop],
                       capture_output=True, text=True,
                       env={**os.environ, 'SA_REPO': w})
    ok = bad.returncode != 0 and good.returncode == 0 and tests.returncode == 0
    out = f'{sid} ({prop}): {"ok" if ok else "BAD"} demo with={bad.returncode} '\
          f'without={good.returncode} tests={tests.returncode} check={c.returncode}'
    if not ok:
      out += '\n' + (good.stderr[-600:] if good.returncode else '') + (
          tests.stdout[-300:] if tests.returncode else '')
    elif 'AssertionError' not in bad.stderr:
      out += '\n  demo fails with: ' + bad.stderr.strip().splitlines()[-1][:200]
    return out
  finally:
    shutil.rmtree(w, ignore_errors=True)


def main():
  from concurrent.futures import ThreadPoolExecutor
  ns = {}
  exec(open(sys.argv[1]).read(), ns)
  flt = sys.argv[2:]
  with ThreadPoolExecutor(6) as ex:
    for r in ex.map(lambda m: make(*m), [
        m for m in ns['SEEDS'] if not flt or any(x in m[0] for x in flt)]):
      print(r, flush=True)


main()

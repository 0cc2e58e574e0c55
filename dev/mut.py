"""dev/mut.py IDS -- < edits: applies an edit to a copy of /repo, runs checks.

Edits come as a Python file of (name, file, old, new, ids) tuples.  Used while
developing; no check needs it.
"""
import os
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def run(name, edits, ids, test=False, out=None):
  d = f'/tmp/mut.{os.getpid()}.{name}'
  shutil.rmtree(d, ignore_errors=True)
  os.makedirs(d)
  shutil.copytree('/repo/causal_effect_bandits', d + '/causal_effect_bandits')
  try:
    for f, old, new, *every in edits:
      p = f'{d}/causal_effect_bandits/{f}'
      s = open(p).read()
      if every and s.count(old):
        open(p, 'w').write(s.replace(old, new))
        continue
      if s.count(old) < 1:
        return f'{name}: NO MATCH in {f}: {old[:60]!r}'
      open(p, 'w').write(s.replace(old, new, 1))
    res = []
    if test:
      t = subprocess.run([sys.executable, '-m', 'pytest', '-q', '-x', d],
                         cwd=d, capture_output=True, text=True, timeout=300)
      res.append('tests ' + ('pass' if t.returncode == 0 else 'FAIL'))
    for i in ids:
      r = subprocess.run(
          [sys.executable, VERIF + '/sa/run.py', i], capture_output=True,
          text=True, env={**os.environ, 'SA_REPO': d}, timeout=900)
      msg = ''
      if r.returncode not in (0,) and os.environ.get('V'):
        ls = [x for x in (r.stdout + r.stderr).splitlines()
              if ' at ' in x or 'UNDECIDED' in x or 'Error' in x]
        msg = ' <' + ' | '.join(x[:300] for x in ls[:2]) + '>'
      if r.returncode or not os.environ.get('Q'):
        res.append(f'{i}={r.returncode}{msg}')
    return f'{name}: ' + ' '.join(res)
  finally:
    shutil.rmtree(d, ignore_errors=True)


def main():
  from concurrent.futures import ThreadPoolExecutor
  ns = {}
  exec(open(sys.argv[1]).read(), ns)
  flt = sys.argv[2:] 
  ms = [m for m in ns['M'] if not flt or any(x in m[0] for x in flt)]
  ids = os.environ.get('IDS')
  with ThreadPoolExecutor(8) as ex:
    for r in ex.map(lambda m: run(m[0], m[1], (ids or m[2]).split(),
                                  test='T' in os.environ), ms):
      print(r, flush=True)


if __name__ == '__main__':
  main()

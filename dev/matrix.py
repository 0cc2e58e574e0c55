"""dev/matrix.py: runs every check on every seeded change, in scratch copies.

Writes dev/matrix.json: the checks that report each change, and those that give
no answer.
"""
import concurrent.futures
import json
import os
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(args):
  d, pid = args
  r = subprocess.run([sys.executable, V + '/sa/run.py', pid], capture_output=True,
                     env={**os.environ, 'SA_REPO': d}, timeout=900)
  return pid, r.returncode


def main():
  ids = [c['property'] for c in json.load(open(V + '/MANIFEST.json'))['checks']]
  out = {}
  with concurrent.futures.ThreadPoolExecutor(8) as ex:
    for s in sorted(os.listdir(V + '/seeded')):
      if sys.argv[1:] and not any(s.startswith(a) for a in sys.argv[1:]):
        continue
      d = f'/tmp/matrix.{os.getpid()}'
      shutil.rmtree(d, ignore_errors=True)
      shutil.copytree('/repo', d)
      subprocess.run(['git', 'apply', f'{V}/seeded/{s}/patch.diff'], cwd=d, check=True)
      rs = dict(ex.map(one, [(d, i) for i in ids]))
      out[s] = {'property': json.load(open(f'{V}/seeded/{s}/meta.json'))['property'],
                'caught': [i for i in ids if rs[i] == 1],
                'none': [i for i in ids if rs[i] not in (0, 1)]}
      print(s, out[s], flush=True)
      shutil.rmtree(d)
  if not sys.argv[1:]:
    json.dump(out, open(V + '/dev/matrix.json', 'w'), indent=1)


main()

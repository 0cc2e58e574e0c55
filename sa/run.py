"""python3 sa/run.py ID [--tier quick|thorough]: decides one property."""
import importlib
import os
import sys
import threading
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get('SA_REPO', '/repo')


def main(argv):
  from program import Program, AnalysisError
  from report import Report, load_known
  tier = os.environ.get('VERIF_TIER', 'quick')
  ids = []
  args = list(argv)
  while args:
    a = args.pop(0)
    if a == '--tier':
      tier = args.pop(0)
    else:
      ids.append(a)
  worst = 0
  for pid in ids:
    mod = importlib.import_module('props.' + pid)
    rep = Report(pid, tier)
    rep.known = {k[1:]: v for k, v in load_known().items() if k[0] == pid}
    try:
      mod.check(rep, Program(REPO))
      rc = rep.finish(int(os.environ.get('VERIF_SEED', '1')))
    except AnalysisError as e:
      viol = any(x[0] == 'violated' for x in rep.items)
      rc = rep.finish() if viol else 2
      print(f'UNDECIDED {pid}: {e}')
    except Exception:
      traceback.print_exc()
      viol = any(x[0] == 'violated' for x in rep.items)
      rc = rep.finish() if viol else 3
    worst = max(worst, rc) if rc != 1 else (1 if worst in (0, 1) else worst)
  return worst


if __name__ == '__main__':
  sys.setrecursionlimit(100000)
  threading.stack_size(1 << 29)
  rc = []
  th = threading.Thread(target=lambda: rc.append(main(sys.argv[1:])))
  th.start()
  th.join()
  sys.stdout.flush()
  os._exit(rc[0] if rc else 3)

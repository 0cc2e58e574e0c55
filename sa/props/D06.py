"""Nothing modifies the data, models or settings that it is given."""
import ast

from program import AnalysisError
from props.inplace import findings, given, lent


def check(rep, prog):
  rep.rule('given', 'no function modifies its arguments in place', 120)
  rep.rule('held', 'no method modifies in place what the object was given by its '
           'user', 60)
  rep.rule('global', 'no function modifies module-level values', 120)
  n = 0
  for f, bad, kept, glob, _ in findings(prog):
    n += 1
    rep.fn(f.qual)
    rep.check('given', f.qual, not bad, given(bad))
    rep.check('global', f.qual, not glob, '; '.join(
        f'line {l}: {what} (the {r})' for r, (l, what) in glob))
    if kept is not None:
      rep.check('held', f.qual, not kept, lent(kept))
  for m in prog.modules.values():
    for x in ast.walk(m.tree):
      if isinstance(x, ast.Global):
        rep.bad('global', f'{m.name}: line {x.lineno}',
                f'global {", ".join(x.names)}')
  if n < 100:
    raise AnalysisError(f'only {n} functions found')

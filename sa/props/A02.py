"""Arms keep all the data they were ever given, each unit in one split."""
import terms as t
from props.armlib import (histories, scores_in, fits, fields, held, COLS,
                          empty, same, splits)
from props.rows import sels


def check(rep, prog):
  rep.rule('all', 'the data of the last fit and the scored data together hold every '
           'unit of every transformed update exactly once', 90)
  rep.rule('stay', 'with stable splits, units stay in their split', 20)
  rep.rule('count', 'get_num_units is the number of units in the two splits', 30)
  for a, i in histories(rep, prog):
    want = list(a.td.values())[:i]
    now = splits(a)
    if now is None:
      rep.unsure('all', a.at, 'the fitted and the scored data are not known')
      continue
    for c in COLS:
      x = [sels(d[c]) for d in now]
      if None in x:
        rep.unsure('all', f'{a.at} {c}', 'unknown rows')
        continue
      names = held(a, x[0] + x[1], want, c)
      rep.check('all', f'{a.at} {c}', names == sorted(t.show(y) for y in want),
                f'the splits do not hold each unit of {[t.show(y) for y in want]} '
                f'once, but {names if names is not None else x}')
    if a.stable and i > 1:
      old = splits(a, -2)
      for k, split in enumerate(('fitted', 'scored')):
        x, y = [sels(d[k]['cov']) if d else None for d in (now, old)]
        if x is None or y is None:
          rep.unsure('stay', f'{a.at} {split}', 'unknown rows')
        else:
          rep.check('stay', f'{a.at} {split}', all(
              any(same(p, q) for q in x) or empty(a, p) for p in y),
              f'units leave the {split} split')
    n = [t.length(d['cov']) for d in now]
    rep.equal('count', a.at, a.call('get_num_units'), t.add(*n),
              'get_num_units', a.pc())

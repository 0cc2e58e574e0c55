"""Scores never come from an estimator trained on the scored units."""
import terms as t
from props.armlib import histories, scores_in, fits, fields, pieces, apart, COLS
from props.rows import Sel


def check(rep, prog):
  rep.rule('split', 'the units that are scored were not in the data of the last '
           'fit of the estimator that scores them', 60)
  rep.rule('columns', 'the columns of the scored and the fitted data are the same '
           'rows', 90)
  rep.rule('scored', 'the estimate, the variance and the interval use scores', 48)
  for a, i in histories(rep, prog):
    for name in ('ate', 'var_est', 'ci'):
      x = a.get(name)
      ss = scores_in(x)
      if name != 'ci' or a.cls.name == 'BootstrapArm':
        rep.check('scored', f'{a.at} {name}', ss, f'{name} does not depend on the '
                  'scores of any data')
      for _, s, d in ss:
        at = f'{a.at} {name}'
        trained = fits(s, a.eta)
        if not trained:
          rep.bad('split', at, 'the scores are of an estimator that was not fitted')
        for y in trained:
          separate(rep, at, d, y)


def separate(rep, at, scored, trained):
  a, b = same_rows(rep, at + ' scored', scored), same_rows(rep, at + ' fitted',
                                                           trained)
  if a is None or b is None:
    return
  for p in a:
    for q in b:
      if not apart(p, q):
        rep.bad('split', at, f'scored: {describe(p)}; fitted: {describe(q)}')
        return
  rep.ok('split', at)


def same_rows(rep, at, d):
  """The chains of the rows of a data set; all columns have to agree."""
  fs = fields(d)
  if fs is None:
    rep.unsure('columns', at, f'not a data set: {t.show(d)[:200]}')
    return None
  cs = {}
  for n in COLS:
    cs[n] = pieces(fs[n])
    if cs[n] is None:
      rep.unsure('columns', f'{at} {n}', f'which rows? {t.show(fs[n])[:200]}')
      return None
  keys = [[tuple((s.key, s.label) for s in c[:-1]) + (str(origin_name(c)),)
           for c in cs[n]] for n in COLS]
  rep.check('columns', at, keys[0] == keys[1] == keys[2], 'the columns hold '
            'different rows')
  return cs['cov']


def origin_name(c):
  x = c[-1].base
  return t.show(x.args[1][0]) if x.op == 'app' and x.args[0].startswith(
      'field:') else t.show(x)


def describe(c):
  return ' of '.join([f'label {t.show(s.label)[:40]} of a labelling'
                      for s in c[:-1]] + [origin_name(c)])

"""The estimates are the mean and the variance of the held-out scores."""
import terms as t
from terms import And, Not
from props.armlib import histories, plain, scores_in, fits, fields, held, COLS
from props.funclib import Spec
from props.rows import sels


def check(rep, prog):
  rep.rule('mean', 'the estimate of the effect is the mean of the scores', 20)
  rep.rule('variance', 'the estimate of the variance is the variance of the scores',
           20)
  rep.rule('whole', 'the scores are those of an estimator that was last fitted to '
           'all the data outside of the scored split', 40)
  for a, i in histories(rep, prog):
    spec = Spec(a.c)
    n, x, short = plain(a)
    pc = And(a.pc(), a.enough()) if a.alg else a.pc()
    got = [short(a.get(k)) for k in ('ate', 'var_est')]
    rep.equal('mean', a.at, got[0], a.ref(spec, 'mean_of', x), 'ate', short(pc))
    rep.equal('variance', a.at, got[1], a.ref(spec, 'variance_of', x), 'var_est',
              short(pc))
    for k in ('ate', 'var_est'):
      for _, s, d in scores_in(a.get(k)):
        ok = [whole(a, y, d, i) for y in fits(s, a.eta)]
        if not ok or None in ok:
          rep.unsure('whole', f'{a.at} [{k}]', 'unknown rows')
        else:
          rep.check('whole', f'{a.at} [{k}]', all(ok), f'{k} uses scores of an '
                    'estimator that was fitted to a part of the data only')


def whole(a, fitted, scored, i):
  """The two data sets hold each unit of the i updates exactly once."""
  for c in COLS:
    x = [sels(fields(d)[c]) for d in (fitted, scored)]
    if None in x:
      return None
    want = list(a.td.values())[:i]
    if held(a, x[0] + x[1], want, c) != sorted(t.show(y) for y in want):
      return False
  return True

"""Estimators report and use a fit exactly when the data suffices for one."""
import terms as t
from terms import And, Not, Or
from drive import S
from props.paramlib import Est, estimators


def check(rep, prog):
  rep.rule('gate', 'has_enough_samples is true after fitting data exactly if the '
           'data suffices', 14)
  rep.rule('new', 'a new estimator has not been fitted', 7)
  rep.rule('last', 'the models depend only on the data fitted last', 7)
  rep.rule('kept', 'data that does not suffice leaves the models as they were', 6)
  rep.rule('nan', 'the scores of an estimator that has not been fitted are NaN', 10)
  rep.rule('zero', 'those of the linear regression estimator are zero', 2)
  for cls in estimators(prog, least=7):
    e = Est(rep, prog, cls)
    h = e.call('has_enough_samples')
    rep.equal('new', h.at, t.truth(h.result), t.FALSE, 'has_enough_samples')
    unfitted(rep, e, 'new')
    d, f = e.fit(1)
    one = e.enough(f, d)
    h = e.call('has_enough_samples', 'fit 1')
    rep.equal('gate', h.at, t.truth(h.result), one, 'has_enough_samples', f.pc)
    unfitted(rep, e, 'fit 1', And(f.pc, Not(one)))
    # a second fit
    old = e.c.st.copy()
    d, f = e.fit(2)
    two = e.enough(f, d)
    h = e.call('has_enough_samples', 'fit 2')
    got = t.truth(h.result)
    rep.equal('gate', h.at, got, t.TRUE, 'has_enough_samples', And(f.pc, two))
    rep.equal('gate', h.at + ' [never enough]', got, t.FALSE, 'has_enough_samples',
              And(f.pc, Not(one), Not(two)))
    rep.equal('gate', h.at + ' [once enough]', got, t.TRUE, 'has_enough_samples',
              And(f.pc, one))
    if e.kind != 'LinearRegressionParameter':
      h = e.call('calculate_score', 'fit 2', d=e.query)
      rep.equal('kept', h.at, h.result, e.score(*e.fits[0][::-1], e.query),
                'the scores after data that does not suffice',
                And(h.pc, e.fits[0][1].pc, f.pc, one, Not(two)))
    h = e.call('calculate_score', 'fit 2', d=e.query)
    pc = And(h.pc, two)
    x = strip(t.ITE(pc, h.result, t.BOTTOM))
    last(rep, h, x, ('d1.',))
    # any number of further ones
    if e.again(old):
      d, f = e.fit(3)
      three = e.enough(f, d)
      h = e.call('has_enough_samples', 'a later fit')
      rep.equal('gate', h.at, t.truth(h.result), t.TRUE, 'has_enough_samples',
                And(f.pc, Or(one, two, three)))
      h = e.call('calculate_score', 'a later fit', d=e.query)
      last(rep, h, strip(t.ITE(And(h.pc, three), h.result, t.BOTTOM)), ('d1.', 'd2.'))


def last(rep, h, x, olds):
  seen = sorted({s.args[0] for g, l in t.leaves(x)
                 for s in t.subterms(t.within(l, g)) if s.op == 'sym' and s.args[0].startswith(olds)})
  rep.check('last', h.at, not seen and x is not t.BOTTOM,
            f'the scores depend on {seen}, columns of earlier data')


def strip(x):
  """Without the states of models before a fit (warm starts)."""
  memo = {}

  def go(y):
    r = memo.get(y.id)
    if r is None:
      if y.op == 'app' and y.args[0] == 'upd:fit':
        y2 = t.mk('app', 'upd:fit', (t.NONE,) + y.args[1][1:], y.args[2])
      else:
        y2 = y
      r = memo[y.id] = t._rebuild(y2, go)
    return r

  return go(x)


def unfitted(rep, e, label, pc=t.TRUE):
  if e.kind == 'LinearRegressionParameter':
    saved = e.c.st
    e.c.st = saved.copy()
    h = e.call('calculate_score', label, d=e.query)
    for g, x in t.leaves(t.restrict(h.result, And(pc, h.pc))):
      while x.op == 'idx':
        x = x.args[0]
      rep.check('zero', h.at + ' [before a fit]', x is t.ZERO or t.is_full(
          x) and x.args[1][1] is t.ZERO, f'the scores are {t.show(x)[:200]}')
    e.c.st = saved
    return
  saved = e.c.st
  e.c.st = saved.copy()
  h = e.call('calculate_score', label, d=e.query)
  same = Not(t.truth(h.spec('other_dimension', e.query, S('n_features', 'int'))))
  want = h.spec('nans', e.query)
  rep.equal('nan', h.at + ' [before a fit]', h.result, want, 'the scores',
            And(pc, h.pc, same))
  rep.hold('nan', h.at + ' [raises]', Not(h.raised()), 'scoring raises an exception',
           And(pc, same))
  e.c.st = saved

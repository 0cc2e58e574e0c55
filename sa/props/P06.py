"""A reset estimator is as good as new and keeps its hyperparameters."""
import terms as t
from terms import And, Not
from drive import Ctx, S
from props.funclib import Fn, comps
from props.paramlib import Est, estimators


def check(rep, prog):
  rep.rule('unfit', 'after a reset the estimator is not fitted and holds no data', 14)
  rep.rule('again', 'fitted again after a reset, the estimator gives the scores of a '
           'new one with the same hyperparameters', 14)
  rep.assume('sklearn.clone gives an unfitted model with the same parameters')
  for cls in estimators(prog, least=7):
    for n, resets in ((1, 1), (2, 1), (1, 2), (1, 3)):
      e = Est(rep, prog, cls)
      e.c.construct  # the new one of the same context is built below
      start = e.c.st.copy()
      pc = t.TRUE
      for k in range(resets):
        start_of = e.c.st.copy()
        for i in range(n):
          old = e.c.st.copy()
          d, f = e.fit(i + 1)
          pc = And(pc, f.pc)
          i and e.again(old)
        r = e.call('reset', f'after {n} fits, {k} times')
        pc = And(pc, r.pc)
        k == 1 and k < resets - 1 and e.again(start_of)
      rep.hold('unfit', r.at + ' [raises]', Not(r.raised()), 'reset raises', pc)
      h = e.call('has_enough_samples')
      rep.equal('unfit', r.at + ' [fitted]', t.truth(h.result), t.FALSE,
                'has_enough_samples', h.pc)
      if 'recent_data' in comps_of(e):
        v = e.c.pure(e.c.attr(e.ref, 'recent_data'))
        rep.equal('unfit', r.at + ' [data]', v, t.NONE, 'recent_data', h.pc)
      # the reference: a new estimator, of clones of the models given to it
      pc = h.pc
      got, gpc, enough = use(e, 3)
      want, wpc, enough2 = fresh(e, start)
      rep.equal('again', r.at + ' [fitted]', enough, enough2, 'has_enough_samples',
                And(pc, gpc))
      rep.equal('again', r.at + ' [raises]', gpc, wpc, 'the valid inputs', pc)
      rep.equal('again', r.at, got, want, 'the scores', And(pc, gpc, wpc))


def comps_of(e):
  return comps(e.c.st, e.ref)


def use(e, i):
  """(scores, condition, fitted) after fitting data i."""
  c = e.c
  before = c.st.pc
  c.st.pc = t.TRUE
  e.fit(i)
  enough = t.truth(e.call('has_enough_samples').result)
  h = e.call('calculate_score', d=e.query)
  out = h.result, c.st.pc, enough
  c.st.pc = And(before, c.st.pc)
  return out


def fresh(e, start):
  """The same for an estimator that was just built, with cloned models."""
  c = e.c
  saved = c.st
  c.st = start.copy()
  if e.cls is e.prog.cls('AIPW'):
    s = Fn(e.rep, c, 'reference').spec
    over = dict(e.over)
    for n in ('response', 'propensity'):
      over[n] = c.I.call(c.st, c.I.getattr(c.st, c.I.global_name(
          e.cls.module, 'sklearn'), 'clone'), [e.over[n]], {})
    old, e.ref = e.ref, c.construct(e.cls.name, **over)
    out = use(e, 3)
    e.ref = old
  else:
    out = use(e, 3)
  c.st = saved
  return out

"""The sample limit ends a run, and nothing else but the confidence does."""
import terms as t
from terms import And, Or, Not
from props.banditlib import Run, algorithms, over_budget, condition, pool, result
from drive import S


def check(rep, prog):
  rep.rule('stop', 'no round starts once the samples taken exceed sample_limit',
           3)
  rep.rule('reason', 'a run ends only when sample_limit is exceeded or the '
           'confidence condition of the algorithm holds', 4)
  rep.rule('unlimited', 'with sample_limit=None a run ends only by the '
           'confidence condition', 3)
  for alg in algorithms(prog):
    r = Run(prog, alg, rep)
    eqs, T, over = over_budget(r, r.back)
    bottom = And(t.replace(r.again, eqs), over) is t.FALSE
    missing = t.FALSE
    for lab, pc, s in r.states():
      added, same, last = r.grown(s, pc)
      LAST = S('last_total', 'num')
      g = t.replace(And(pc, Not(same)), eqs)
      missing = Or(missing, And(g, t.gt(LAST, r.attr0('sample_limit'))))
    if bottom or missing is t.FALSE:
      rep.ok('stop', r.where)
    else:
      rep.hold('stop', r.where, Not(missing), 'a round takes place although the '
               'limit is exceeded')
    for i, (pc, s) in enumerate(r.exits):
      w = f'{r.where} [exit {i + 1}]'
      eqs, T, over = over_budget(r, s)
      rep.hold('reason', w, Or(over, t.replace(enough(r, s, pc), eqs)),
               'the run ends', t.replace(pc, eqs))
    r = Run(prog, alg, rep, sample_limit=t.NONE, confidence=S(
        'confidence', 'num'))
    for i, (pc, s) in enumerate(r.exits):
      w = f'{r.where} [exit {i + 1}]'
      rep.hold('unlimited', w, enough(r, s, pc), 'the run ends',
               And(r.outer, pc))


def enough(r, s, pc):
  if pool(r) is None:
    return condition(r, s)
  return Or(*[And(g, t.le(t.length(y), t.ONE)) for g, y in result(r, s, pc)])

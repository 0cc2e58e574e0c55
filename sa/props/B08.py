"""The winner when the sample limit ends a run."""
import terms as t
from terms import And, Or, Not
from props.banditlib import (Run, algorithms, over_budget, pool,
                             result, condition)
from report import agree


def check(rep, prog):
  rep.rule('winner', 'a run that exceeds its limit returns exactly the arms '
           '(still in the race) with the lowest cost-scaled variance estimate',
           3)
  for alg in algorithms(prog):
    r = Run(prog, alg, rep)
    p = pool(r) if r.pick is None else None
    X = p[0] if p is not None else r.arm_list
    for i, (pc, s) in enumerate(r.exits):
      w = f'{r.where} [exit {i + 1}]'
      eqs, T, over = over_budget(r, s)
      want = None
      for g, y in result(r, s, pc):
        g = And(t.replace(g, eqs), over)
        if g is t.FALSE:
          continue
        # with elimination only a run stopped before its round counts here
        if p is not None and r.grown(s, pc)[0] is not t.FALSE:
          continue
        if want is None:
          want = t.recat('list', r.spec(s, 'lowest_variance', X))
        y = t.recat('list', y)
        if p is None:
          # the confidence condition may hold at the same time
          alt = agree(y, t.recat('list', r.spec(s, 'stop_winner', r.arm_list)),
                      g)
          g = And(g, Not(And(condition(r, s), alt)))
          if g is t.FALSE:
            continue
        rep.equal('winner', w, y, want, 'best_arm', g)

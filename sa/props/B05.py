"""The fixed-confidence stopping rule of the algorithms without elimination."""
import terms as t
from terms import And, Or, Not
from props.banditlib import (Run, algorithms, over_budget, condition,
                             conditions, pool,
                             result)


def check(rep, prog):
  rep.rule('prompt', 'a further round is played only if the stopping condition '
           'does not hold after the round', 2)
  rep.rule('winner', 'a run that ends by confidence returns the arm with the '
           'lowest cost-scaled variance estimate', 2)
  rep.rule('sound', 'a run within its limit ends only if that condition holds',
           2)
  for alg in algorithms(prog):
    r = Run(prog, alg, rep)
    if pool(r) is not None:
      continue
    rep.hold('prompt', f'{r.where}', Not(And(*conditions(r, r.back))),
             'another round starts', r.again)
    for i, (pc, s) in enumerate(r.exits):
      w = f'{r.where} [exit {i + 1}]'
      eqs, T, over = over_budget(r, s)
      pc2 = t.replace(pc, eqs)
      g0 = And(pc2, Not(over))
      if g0 is t.FALSE:
        continue
      rep.hold('sound', w, condition(r, s), 'the run ends', g0)
      for g, y in result(r, s, pc):
        g = And(t.replace(g, eqs), Not(over))
        if g is not t.FALSE:
          rep.equal('winner', w, t.recat('list', y), r.spec(
              s, 'stop_winner', r.arm_list), 'best_arm', g)

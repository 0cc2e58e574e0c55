"""The error probability is split evenly over all the arms."""
import terms as t
from props.banditlib import Run, algorithms, chain, steps, updates, update_args


def check(rep, prog):
  rep.rule('level', 'every update of an arm, in every round, gets the error '
           'level error_prob / (number of all arms)', 10)
  rep.rule('only', 'between rounds the arms change by update() alone', 8)
  for alg in algorithms(prog):
    for stable in (True, False):
      r = Run(prog, alg, rep, stable)
      prob = r.attr0('error_prob')
      want = t.div(prob, r.n)
      for lab, pc, b, a, inloop in steps(r):
        for g, ch in updates(r, b, a, pc):
          w = f'{r.where} [{lab}, {"given" if stable else "generated"} data]'
          if ch is None:
            rep.unsure('only', w, 'the state of an arm is not a chain of calls:'
                       f' {t.show(r.ost(a))[:300]}')
            continue
          rep.check('only', w, all(u[0] == 'update' for u in ch),
                    f'calls {[u[0] for u in ch]}')
          for u in ch:
            if u[0] == 'update':
              d = update_args(prog, u)[1]
              if d is None:
                rep.bad('level', w, 'update is called without an error level')
              else:
                rep.equal('level', w, d, want, 'the error level', g)

"""Without enough data, the interval is [0, inf) and there is no estimate."""
import terms as t
from terms import And, Not, Or
from drive import S
from props.armlib import arms, histories, takes
from props.funclib import Spec


def check(rep, prog):
  rep.rule('interval', 'without enough data for the estimator, the interval is '
           '[0, inf)', 18)
  rep.rule('estimates', 'there is no estimate, and an infinite variance', 36)
  rep.rule('returned', 'update returns this interval', 18)
  rep.rule('quiet', 'data that is not enough raises nothing', 18)
  for cls in [c for c in arms(prog) if takes(c, 'ci_algorithm')]:
    for a, i in histories(rep, prog, None, [cls]):
      spec = Spec(a.c)
      pc = And(a.pc(), Not(a.enough()))
      want = a.ref(spec, 'no_interval')
      rep.equal('interval', a.at, a.get('ci'), want, 'the interval', pc)
      rep.equal('returned', a.at, a.result(), want, 'the returned interval', pc)
      rep.equal('estimates', a.at + ' [ate]', a.get('ate'), t.NAN, 'the estimate',
                pc)
      rep.equal('estimates', a.at + ' [var_est]', a.get('var_est'), t.INF,
                'the variance', pc)
      d = S(f'delta{i}', 'num')
      bad = t.truth(a.ref(spec, 'bad_delta', d))
      pcs = [a.short(s.pc) for s, _, _ in a.excs[-1]]
      rep.hold('quiet', a.at, Not(Or(*pcs)), 'an exception',
               And(Not(a.enough()), Not(bad), same_width(pcs)))


def same_width(pcs):
  """All the data has the same number of covariates."""
  ws = []
  for p in pcs:
    ws += [x for x in t.subterms(p) if x.op == 'app' and x.args[0] == 'shape1' and
           x not in ws]
  return And(*[t.eq(x, y) for x in ws for y in ws if x is not y])

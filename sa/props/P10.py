"""The widths of the confidence sequences of the estimators."""
import terms as t
from terms import And
from drive import S
from props.paramlib import Est, estimators


def check(rep, prog):
  rep.rule('width', 'the width is that of the self-normalised bound for the data '
           'fitted last', 10)
  rep.rule('total', 'the width is given for all fitted data', 10)
  n, m = S('n_features', 'int'), S('min_overlap', 'num')
  args = {k: S(k, 'num') for k in ('delta', 'sub_g', 'rho')}
  for cls in estimators(prog, 'AIPW', 'FrontDoorLinearFiniteZ', least=5):
    e = Est(rep, prog, cls)
    for i in (1, 2):
      d, f = e.fit(i)
      h = e.call('calculate_cs_width', f'fit {i}', **args)
      if e.kind == 'AIPW':
        cov = e.c.attr(d, 'cov')
        want = h.spec('aipw_width', cov, *args.values(), n, m)
      else:
        want = h.spec('front_door_width', d, *args.values(), n, m)
      got = h.result
      for a in [x for x in t.subterms(got) if x.op in ('isinf', 'isnan')]:
        got = t.assume(got, a, 0)  # what is computed of numbers is a number
      # fitted data has as many columns as the estimator has features
      pc = h.pc
      for j in range(1, i + 1):
        w = t.app(
            'shape1', S(f'd{j}.cov', 'arr2'), ty='int')
        if t.entails(pc, t.eq(w, n)):
          got, want, pc = (t.replace(x, {w: n}) for x in (got, want, pc))
      rep.equal('width', h.at, got, want, 'the width', pc)
      rep.hold('total', h.at, t.Not(h.raised()), 'an exception is raised', f.pc)

"""Validation of the parameters of a bandit."""
import terms as t
from terms import And, Or, Not
from drive import Ctx, S
from props.banditlib import OPAQUE, Spec, algorithms


def check(rep, prog):
  rep.rule('reject', 'the constructor raises exactly for an error_prob outside '
           '(0,1), a negative error_tol, a confidence outside (0,1), or neither '
           'confidence nor sample_limit', 9)
  rep.rule('error', 'a rejected parameter raises ValueError', 9)
  rep.rule('keep', 'accepted parameters are kept as given, a missing '
           'sample_limit as no limit', 15)
  num = lambda n: S(n, 'num')
  base = {n: num(n) for n in ('error_prob', 'error_tol', 'confidence',
                              'sample_limit', 'units_per_round')}
  for alg in algorithms(prog):
    for lab, over in (('all given', {}), ('no confidence',
                                          {'confidence': t.NONE}),
                      ('no limit', {'sample_limit': t.NONE}),
                      ('neither', {'confidence': t.NONE,
                                   'sample_limit': t.NONE})):
      kw = {**base, **over}
      c = Ctx(prog, opaque=OPAQUE)
      sp = Spec(c)
      b = c.construct(alg, **kw)
      rep.fn(*sorted(c.I.analysed))
      w = f'{alg.module.name}.{alg.name}() [{lab}]'
      got = Or(*[s.pc for s, _, _ in c.excs])
      want = t.truth(sp('invalid_bandit', kw['error_prob'], kw['error_tol'],
                        kw['confidence'], kw['sample_limit']))
      lim = kw['sample_limit']
      sane = t.TRUE if lim is t.NONE else Not(t.lt(lim, t.ZERO))
      rep.equal('reject', w, got, want, 'raises', sane)
      for s, nm, wh in c.excs:
        if s.pc is not t.FALSE:
          rep.check('error', w, nm == 'ValueError', f'raises {nm}')
      good = And(sane, Not(want))
      if good is t.FALSE:
        continue
      for a in ('error_prob', 'error_tol', 'units_per_round', 'sample_limit',
                'confidence'):
        v = c.attr(b, a)
        x = kw[a]
        if a == 'sample_limit' and x is t.NONE:
          x = t.INF
        rep.equal('keep', f'{w} {a}', v, x, a, good)

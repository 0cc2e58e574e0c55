"""Data of the wrong dimension is rejected before it changes an estimator."""
import terms as t
from terms import And, Not
from drive import S
from props.funclib import unchanged
from props.paramlib import Est, estimators


def check(rep, prog):
  rep.rule('fit', 'fit raises ValueError exactly for covariates of another '
           'dimension', 12)
  rep.rule('intact', 'a rejected fit leaves the estimator as it was', 12)
  rep.rule('score', 'a fitted estimator refuses to score covariates of another '
           'dimension', 6)
  kinds = ('AIPW', 'FrontDoorLinearFiniteZ', 'LinearParameterBinaryTreatment')
  n = S('n_features', 'int')
  for cls in estimators(prog, *kinds, least=6):
    e = Est(rep, prog, cls)
    for i in (1, 2):
      state = e.c.st.copy()
      d, f = e.fit(i, f'fit {i}')
      f.rejects('fit', 'other_dimension', d, n, within=state.pc)
      if not f.excs:
        rep.bad('intact', f.at, 'no exception')
      for s, name, x in f.excs:
        unchanged(rep, 'intact', f'{f.at} {name}', e.c, state, s, e.ref, s.pc,
                  'the estimator')
        k, l = (e.c.I.ost(z) for z in (state, s))
        rep.equal('intact', f'{f.at} {name} [models]', l, k, 'the models', s.pc)
    pc = And(f.pc, e.enough(f, d))
    h = e.call('calculate_score', d=e.query)
    bad = t.truth(h.spec('other_dimension', e.query, n))
    rep.hold('score', h.at, h.raised('ValueError'), 'the data is scored',
             And(pc, bad))

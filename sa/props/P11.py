"""set_to_truth installs the coefficients of the linear data generator."""
import terms as t
from terms import And, Not
from drive import S
from props.funclib import Fn
from props.paramlib import Est, estimators

ATTRS = {
    'AIPW': [('response', 'coef_'), ('propensity', 'coef_'),
             ('propensity', 'intercept_')],
    'LinearParameterBinaryTreatment': [
        ('treat_response', 'coef_'), ('treat_response', 'intercept_'),
        ('cont_response', 'coef_'), ('cont_response', 'intercept_')],
}


def check(rep, prog):
  rep.rule('truth', 'the coefficients are tau, beta and gamma, in the order of the '
           'columns that the models are fitted to', 16)
  rep.rule('reject', 'a generator without these coefficients is rejected', 4)
  for cls in estimators(prog, *ATTRS, least=5):
    e = Est(rep, prog, cls)
    c = e.c
    gen = c.construct('LinearDataGenerator', tau=S('tau', 'num'),
                      beta=S('beta', 'arr1'), gamma=S('gamma', 'arr1'))
    f = e.call('set_to_truth', data_gen=gen)
    want = f.spec('truth_' + ('aipw' if e.kind == 'AIPW' else 'linear'), gen,
                  S('n_features', 'int'))
    for i, (m, a) in enumerate(ATTRS[e.kind]):
      o = c.attr(e.ref, m)
      v = c.pure(c.attr(o, a))
      rep.equal('truth', f'{f.at} [{m}.{a}]', v, t.idx(want, t.num(i)),
                f'{m}.{a}', f.pc)
    if e.kind == 'AIPW':
      e = Est(rep, prog, cls)
      gen = S('gen', ('cls', prog.cls('SCM')))
      f = e.call('set_to_truth', 'other generator', data_gen=gen)
      rep.hold('reject', f.at, f.raised('ValueError'), 'not rejected')

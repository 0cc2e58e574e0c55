"""Estimators (nuisance parameters) on symbolic data."""
import terms as t
from terms import And, Or, Not
from drive import Ctx, S
from program import AnalysisError
from props.datalib import data_of
from props.funclib import Fn, comps
from props.later import jump

HYPER = dict(min_units=S('min_units', 'num'), min_overlap=S('min_overlap', 'num'),
             n_features=S('n_features', 'int'), l_reg=S('l_reg', 'num'),
             min_ratio_to_uniform=S('min_ratio_to_uniform', 'num'))


MODELS = {'response': 'Predictor', 'propensity': 'ProbPredictor'}


class Est:
  """One estimator with symbolic hyperparameters."""

  def __init__(self, rep, prog, cls, **kw):
    self.rep, self.prog, self.cls = rep, prog, cls
    self.c = c = Ctx(prog, opaque=['TabularCPD'], **kw)
    self.kind = kind(prog, cls)
    k, init = cls.find('__init__')
    takes = [x.arg for x in init.args.args + init.args.kwonlyargs]
    over = {n: v for n, v in HYPER.items() if n in takes}
    for n in ('response', 'propensity'):
      if n in takes:
        over[n] = S(n, ('cls', prog.cls(MODELS[n])))
        t.APART.add(over[n])
    self.over = over
    self.query = data_of(c, 'q', same=True)
    self.data = [data_of(c, f'd{i + 1}', same=True) for i in range(4)]
    self.ref = c.construct(cls.name, **over)
    self.fresh = c.st.copy()
    self.fits = []

  def where(self, method):
    return f'{self.cls.module.name}.{self.cls.name}.{method}'

  def call(self, name, label='', **kw):
    f = Fn(self.rep, self.c, self.where(name), label)
    f.method(self.ref, name, **kw)
    return f

  def fit(self, i=1, label=''):
    d = self.data[i - 1]
    f = self.call('fit', label, d=d)
    # the data have the features the estimator was made for
    f.pc = And(f.pc, t.truth(f.spec('of_dimension', d, HYPER['n_features'])))
    self.fits.append((d, f))
    return d, f

  def again(self, old):
    """What was just done, from the state old, was done any number of times."""
    st = jump(old, self.c.st)
    if st is not None:
      self.c.st = st
    return st is not None

  def enough(self, f, d):
    """The reference condition for fitting the models to d."""
    if self.kind in ('AIPW', 'FrontDoorLinearFiniteZ'):
      return t.truth(f.spec('both_groups', d, HYPER['min_units']))
    if self.kind == 'LinearParameterBinaryTreatment':
      return t.truth(f.spec('some_in_both_groups', d))
    return t.truth(f.spec('any_units', d))

  def score(self, f, d, q):
    """The reference score of q for the models fitted by f to d."""
    m = HYPER['min_overlap']
    if self.kind == 'AIPW':
      return f.spec('aipw_score', self.ref, d, q, m, state=f.before)
    if self.kind == 'FrontDoorLinearFiniteZ':
      return f.spec('front_door_score', self.ref, d, q, m, state=f.before)
    if self.kind == 'LinearParameterBinaryTreatment':
      return f.spec('linear_score', self.ref, d, q, state=f.before)
    return f.spec('regression_score', d, q, HYPER['n_features'], HYPER['l_reg'],
                  state=f.before)


KINDS = ('AIPW', 'FrontDoorLinearFiniteZ', 'LinearParameterBinaryTreatment',
         'LinearRegressionParameter')


def kind(prog, cls):
  for k in KINDS:
    if cls.is_subclass(prog.cls(k)):
      return k
  return None


def estimators(prog, *kinds, least=None):
  """The concrete estimators, of the given kinds."""
  base = prog.cls('NuisanceParameter')
  for k in KINDS:
    prog.cls(k)
  out = sorted(prog.subclasses(base), key=lambda c: c.name)
  out = [c for c in out if c is not base and kind(prog, c) and (
      not kinds or kind(prog, c) in kinds)]
  if least is not None and len(out) < least:
    raise AnalysisError(f'expected {least} estimators, found {len(out)}')
  return out


def scores(rep, prog, kinds, least, rule='score'):
  for cls in estimators(prog, *kinds, least=least):
    for history in (1, 2):
      e = Est(rep, prog, cls)
      for i in range(history):
        d, f = e.fit(i + 1)
      enough = e.enough(f, d)
      q = e.query
      h = e.call('calculate_score', f'fit {history}', d=q)
      pc = And(f.pc, h.pc, enough)
      if pc is t.FALSE:
        rep.bad(rule or 'some', h.at, 'data is never scored')
        continue
      if rule is not None:
        rep.equal(rule, h.at, h.result, e.score(f, d, q), 'the scores', pc)
      yield e, f, h, d, q

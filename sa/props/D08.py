"""The linear data generator samples from the model that it documents."""
import terms as t
from terms import And, Not
from drive import Ctx, S
from props.datalib import COLS
from props.funclib import Fn, same_object, snapped
from props.inplace import storage


def check(rep, prog):
  storage(rep, prog, ['data.LinearDataGenerator'], 4, ['generate'])
  rep.rule('model', 'covariates are standard normal, the treatment is Bernoulli '
           'of the sigmoid of x.gamma, the response is x.beta + tau t + noise of '
           'the same units', 9)
  rep.rule('reject', 'a coefficient vector, or noise, of the wrong length is '
           'rejected, and nothing else', 4)
  rep.rule('state', 'generating data does not change the generator', 8)
  rep.rule('expose', 'tau, beta and gamma are those that were given', 3)
  n = S('n_samples', 'int')
  for lab, gamma in (('gamma given', S('gamma', 'arr1')), ('default', t.NONE)):
    c = Ctx(prog)
    f = Fn(rep, c, 'data.LinearDataGenerator.__init__', lab)
    a = dict(n_features=S('n_features', 'int'), beta=S('beta', 'arr1'),
             tau=S('tau', 'num'), noise_model=S('noise_model'))
    f.build('LinearDataGenerator', gamma=gamma, **a)
    if gamma is not t.NONE:
      f.rejects('reject', 'wrong_length', gamma, a['n_features'])
    gen = f.value
    ok = f.pc
    rep.equal('expose', f.at + ' [tau]', c.attr(gen, 'tau'), a['tau'], 'tau', ok)
    rep.equal('expose', f.at + ' [beta]', c.attr(gen, 'beta'), a['beta'], 'beta',
              ok)
    want = f.spec('default_gamma', gamma, a['n_features'])
    rep.equal('expose', f.at + ' [gamma]', c.attr(gen, 'gamma'), want, 'gamma', ok)
    h = Fn(rep, c, 'data.LinearDataGenerator.generate', lab)
    h.method(gen, 'generate', n_samples=n)
    fs = snapped(t.restrict(h.result, h.pc))
    if fs is None:
      rep.unsure('model', h.at, f'not a data set: {t.show(h.result)[:300]}')
      continue
    want = h.spec('linear_sample', n, a['n_features'], want, a['beta'], a['tau'],
                  a['noise_model'])
    for i, nm in enumerate(COLS):
      rep.equal('model', f'{h.at} [{nm}]', fs[nm], t.idx(want, t.num(i)), nm,
                h.pc)
    h.rejects('reject', 'wrong_length', t.idx(want, t.num(3)), n, within=ok)
    same_object(rep, 'state', h.at, c, h.before, c.st, gen, h.pc, 'the generator')
  c = Ctx(prog)
  gen = c.construct('DataGenerator')
  h = Fn(rep, c, 'data.DataGenerator.generate')
  h.method(gen, 'generate', n_samples=n)
  fs = snapped(h.result)
  want = h.spec('zero_sample', n)
  for i, nm in enumerate(COLS):
    rep.equal('model', f'{h.at} [{nm}]', fs[nm], t.idx(want, t.num(i)), nm, h.pc)

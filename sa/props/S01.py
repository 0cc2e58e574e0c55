"""An SCM draws each variable once, from its own parents' samples."""
import itertools
import terms as t
from drive import Ctx, S
from props.scmlib import NAMES, graphs, lit, model, mechanism
from props.funclib import Fn, snapped
from props.datalib import COLS
from props.later import jump


def roles(k, names):
  """Different choices of the treatment, the response and the covariates."""
  n = len(names)
  x, y = names[(k + n - 2) % n], names[(k + n - 1) % n]
  if k % 5 == 3:
    x, y = y, x
  cov = [v for v in names if v not in (x, y)]
  if k % 3 == 1:
    cov.reverse()
  if k % 4 == 2:
    cov = cov + [x]
  if k % 7 == 5:
    cov = [y] + cov
  if k % 9 == 4:
    cov = cov + cov[:1]
  if k % 11 == 6:
    x = y
  return cov or [x], x, y


def check(rep, prog):
  rep.rule('columns', 'the covariates, the treatment and the response are the '
           'samples of the variables of these names, in the given order', 200)
  rep.rule('once', 'each mechanism is sampled once, with the number of samples and '
           'the samples of the parents in the order of parents', 70)
  n = S('n_samples', 'int')
  k = 0
  for size in range(2, rep.depth(4, 5) + 1):
    names = ('w',) * (size > 4) + NAMES[-size:]
    for parents in graphs(list(names)):
      k += 1
      cov, x, y = roles(k, list(names))
      one(rep, prog, n, parents, cov, x, y)


def one(rep, prog, n, parents, cov, x, y):
  c = Ctx(prog)
  a = model(c, parents, cov, x, y)
  scm = c.construct('SCM', **a)
  label = ', '.join(f'{v}({" ".join(p)})' for v, p in parents.items()) + \
      f': {" ".join(cov)}; {x}; {y}'
  sample(rep, c, scm, a, n, parents, label)
  if len(parents) > 3:
    return
  # again, and after any number of further samples
  for i in range(2):
    c.st.log = ()
    old = c.st.copy()
    c.I.path.append(('call', i))  # other samples than those before
    sample(rep, c, scm, a, n, parents, f'{label} [again]')
    later = jump(old, c.st)
    if later is None:
      return
    c.st = later


def sample(rep, c, scm, a, n, parents, label):
  f = Fn(rep, c, 'scm.SCM.generate', label)
  f.method(scm, 'generate', n_samples=n)
  want = f.spec('scm_sample', *[a[q] for q in (
      'var_names', 'parents', 'cpds', 'cov_variables', 'treatment_variable',
      'response_variable')], n)
  if f.pc is t.FALSE:
    rep.bad('columns', f.at, 'generate always raises')
    return
  calls = {}
  for e, path in c.events('callf'):
    calls.setdefault(e.d['f'], []).append(path)
  cs = {mechanism(v): v for v in parents}
  got = sorted(cs.get(g, t.show(g)) for g, ps in calls.items() for p in ps)
  rep.check('once', f.at, got == sorted(parents), f'the mechanisms sampled are {got}')
  for e, path in c.events('callf'):
    if e.d['f'] in cs and not path:
      rep.hold('once', f'{f.at} [{cs[e.d["f"]]}]', e.pc, 'the mechanism is not always '
               'sampled', f.pc)
  fs = snapped(t.restrict(f.result, f.pc))
  if fs is None:
    rep.unsure('columns', f.at, f'not a data set: {t.show(f.result)[:300]}')
    return
  for i, nm in enumerate(COLS):
    rep.equal('columns', f'{f.at} [{nm}]', fs[nm], t.idx(want, t.num(i)), nm, f.pc)

"""The treatment effect is that of setting the treatment, and nothing else."""
import terms as t
from terms import And
from drive import Ctx, S
from props.scmlib import NAMES, graphs, model, mechanism
from props.funclib import Fn, unchanged, comps
from props.S01 import roles


def check(rep, prog):
  rep.rule('effect', 'the effect is the mean response with the treatment set to one '
           'less that with zero, all other mechanisms and parents being the same', 70)
  rep.rule('set', 'the mechanism of the treatment is not sampled', 70)
  rep.rule('restored', 'the model and all that it was given are as before', 70)
  rep.rule('raised', 'this also holds when a mechanism raises an exception', 30)
  n = S('n_samples', 'int')
  k = 0
  for size in range(2, rep.depth(4, 5) + 1):
    names = ('w',) * (size > 4) + NAMES[-size:]
    for parents in graphs(list(names)):
      k += 1
      cov, x, y = roles(k, list(names))
      one(rep, prog, n, parents, cov, x, y, size < 4)


def one(rep, prog, n, parents, cov, x, y, failing):
  label = ', '.join(f'{v}({" ".join(p)})' for v, p in parents.items())
  label += f': {" ".join(cov)}; {x}; {y}'
  c = Ctx(prog)
  a = model(c, parents, cov, x, y)
  scm = c.construct('SCM', **a)
  f = Fn(rep, c, 'scm.SCM.compute_treatment_effect', label)
  f.method(scm, 'compute_treatment_effect', n_samples=n)
  want = f.spec('scm_effect', *[a[q] for q in (
      'var_names', 'parents', 'cpds', 'response_variable')], n, a[
          'treatment_variable'])
  if f.pc is t.FALSE:
    rep.bad('effect', f.at, 'always raises')
  rep.equal('effect', f.at, unordered(f.result), unordered(want), 'the effect',
            f.pc)
  rep.check('set', f.at, not [e for e, _ in c.events('callf') if e.d['f'] is
                              mechanism(x)], f'the mechanism of {x} is sampled')
  unchanged(rep, 'restored', f.at, c, f.before, c.st, scm, f.pc, 'the model')
  if not failing:
    return
  c = Ctx(prog, implicit_exc=True)
  a = model(c, parents, cov, x, y)
  scm = c.construct('SCM', **a)
  f = Fn(rep, c, 'scm.SCM.compute_treatment_effect', label)
  f.method(scm, 'compute_treatment_effect', n_samples=n)
  for i, (s, name, _) in enumerate(f.excs):
    unchanged(rep, 'raised', f'{f.at} [{name}, exception {i}]', c, f.before, s, scm,
              s.pc, 'the model')


def unordered(x):
  """Without the order of the samples of the same mechanism."""
  while True:
    m = {y: t.mk('callres', 0, *y.args[1:], ty=y.ty) for y in t.subterms(x)
         if y.op == 'callres' and y.args[0] != 0}
    if not m:
      return x
    x = t.replace(x, m)

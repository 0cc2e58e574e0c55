"""Each unit is sampled from the distribution of its category."""
import terms as t
from terms import Not
from drive import Ctx, S
from props.scmlib import lit
from props.funclib import Fn, unchanged
from props.inplace import storage


def check(rep, prog):
  storage(rep, prog, ['scm.categorical_conditioning'], 1)
  rep.rule('samples', 'the sample of a unit is from the distribution of its category, '
           'given the other parents of the same unit in their order', 6)
  rep.rule('kept', 'the given lists are not changed', 6)
  rep.rule('rejected', 'an index that is not that of a parent raises ValueError', 6)
  for k in range(1, rep.depth(3, 5) + 1):
    for i in range(k + 2):
      for ty in ('arr1', 'arr2'):
        one(rep, prog, k, i, ty)


def one(rep, prog, k, i, ty):
  c = Ctx(prog)
  ps = [S(f'p{j}', 'arr1' if j == i else ty) for j in range(k)]
  for p in ps:
    t.LENGTH[p] = S('n_units', 'int')
  a = dict(parents=lit(c, ps), conditioning_on_idx=t.num(i), distributions=lit(c, [
      S(f'dist{j}', 'fn') for j in range(3)]))
  f = Fn(rep, c, 'scm.categorical_conditioning', f'{k} parents {ty}, index {i}')
  f.func('scm', 'categorical_conditioning', **a)
  if i >= k:
    rep.hold('rejected', f.at, f.raised('ValueError'), 'is accepted')
    return
  if f.pc is t.FALSE:
    rep.bad('samples', f.at, 'always raises')
  rep.equal('samples', f.at, f.result, f.spec('by_category', *a.values()),
            'the samples', f.pc)
  for nm in ('parents', 'distributions'):
    unchanged(rep, 'kept', f'{f.at} [{nm}]', c, f.before, c.st, a[nm], f.pc, nm)

"""Symbolic data sets."""
import terms as t
from drive import S
from props.rows import sels

COLS = ('cov', 'exp', 'rsp')


def data_of(c, name='data', exp=True, rsp=True, cov='arr2', same=False):
  """A data set, possibly without exposures or responses.

  same: the columns are assumed to have the same length.
  """
  g = lambda f, ty: S(f'{name}.{f}', ty)
  if same:
    for f in ('exp', 'rsp'):
      t.LENGTH[g(f, 'arr1')] = t.length(g('cov', cov))
  return c.construct(
      'ExpData', cov=g('cov', cov), exp=g('exp', 'arr1') if exp else t.NONE,
      y=g('rsp', 'arr1') if rsp else t.NONE)


def variants():
  yield 'all columns', {}
  yield 'no exposures', {'exp': False}
  yield 'no responses', {'rsp': False}
  yield 'covariates only', {'exp': False, 'rsp': False}


def same_row_source(rep, rule, at, got, cols):
  """Every column of got is the same selection of rows of the given columns.

  Returns (key, label) of that selection.
  """
  key = None
  fine = True
  for nm in COLS:
    x, base = got[nm], cols[nm]
    w = f'{at} [{nm}]'
    if base is t.NONE:
      rep.check(rule, w, x is t.NONE, f'absent in the data but {t.show(x)[:200]}')
      continue
    s = sels(x)
    if x.lost or s is None:
      (rep.unsure if x.lost or x is not t.NONE else rep.bad)(
          rule, w, f'the rows are {t.show(x)[:300]}')
      fine = False
      continue
    if len(s) != 1 or s[0].base is not base or s[0].key is None:
      rep.bad(rule, w, f'holds {s}, not rows of {t.show(base)}')
      fine = False
      continue
    k = (s[0].key, s[0].label)
    if key is None:
      key = k
    if rep.check(rule, w, k[0] is key[0] and k[1] is key[1],
                 f'holds the rows {s[0]}, but cov those with '
                 f'{t.show(key[0])[:60]} = {t.show(key[1])}') is False:
      fine = False
  return key if fine else None

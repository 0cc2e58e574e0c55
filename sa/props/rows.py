"""Which rows of which arrays an array holds."""
import re

import terms as t


class Sel:
  """The rows of a base array whose label is one given value (or all rows)."""

  def __init__(self, base, key=None, label=None):
    self.base, self.key, self.label = base, key, label

  def __repr__(self):
    if self.key is None:
      return t.show(self.base)
    return f'{t.show(self.base)}[{t.show(self.key)[:60]} = {t.show(self.label)}]'


def mask(m):
  """(key, label) of a boolean mask."""
  if m.op == 'veq':
    a, b = m.args
    if t.is_scalar(b) and not t.is_scalar(a):
      a, b = b, a
    if t.is_vector(b) and t.is_scalar(a):
      return b, a
  if m.op == 'vnot':
    k = mask(m.args[0])
    if k is None or k[1] not in (t.TRUE, t.FALSE):
      return None
    return k[0], t.Not(k[1])
  if t.is_vector(m) or m.op in ('draw', 'vlt'):
    return m, t.TRUE
  return None


def sels(x):
  """The selections that an array is stacked from, or None."""
  if x.op == 'cat':
    out = []
    for y in x.args[1]:
      p = sels(y)
      if p is None:
        return None
      out += p
    return out
  if x.op == 'idx' and t.is_mask(x.args[1]):
    k = mask(x.args[1])
    return None if k is None else [Sel(x.args[0], *k)]
  if x.op == 'idx':
    p = part(x.args[1])
    if p is not None:
      return [Sel(x.args[0], *p)]
  if x.op in ('app', 'sym'):
    return [Sel(x)]
  return None


def is_permutation(x):
  return x.op == 'draw' and x.args[1] == 'numpy.random.permutation'


def part(i):
  """(key, label) of an array of positions cut from a permutation."""
  if i.op == 'idx' and i.args[1].op == 'slice' and is_permutation(i.args[0]):
    lo, hi, step = i.args[1].args
    if step is t.NONE:
      return i.args[0], t.mk('seq', 'tuple', (lo, hi))
  if i.op == 'idx' and i.args[0].op == 'app' and i.args[0].args[0] == \
      'call:numpy.array_split' and t.is_scalar(i.args[1]):
    a = i.args[0].args[1]
    if len(a) == 2 and is_permutation(a[0]):
      return i.args[0], i.args[1]
  return None


def disjoint(a, b):
  """Two selections of rows share no unit: True, False or None (unknown)."""
  if a.base is not b.base:
    return None
  if a.key is None or b.key is None or a.key is not b.key:
    return None
  if a.label is b.label:
    return False
  e = t.eq(a.label, b.label)
  return True if e is t.FALSE else False if e is t.TRUE else None


def wide_int(x):
  """Without a conversion that keeps all the integers in question."""
  while x.op == 'app' and x.args[0] == 'astype':
    ty = re.sub(r'.*[.(\'"](\w+)[)\'"]*$', r'\1', t.show(x.args[1][1]))
    if ty not in WIDE:
      break
    x = x.args[1][0]
  return x


WIDE = ('int', 'int64', 'int32', 'intp', 'int_', 'uint32', 'uint64', 'float',
        'float64', 'longlong')


def fold_labels(key, n):
  """The number of labels, if the key gives n units balanced labels 0..k-1."""
  x = wide_int(key)
  if x.op == 'draw' and x.args[1] == 'numpy.random.permutation':
    a = dict(x.args[3]).get('x')
    if a is None:
      return None
    x = wide_int(a)
  if x.op != 'map' or x.args[2] is not t.TRUE:
    return None
  if not t.rat_equal(t.length(x), n):
    return None
  i = t.tmp('i', ty='int')
  e = t.inst(x, i, 3)
  if e.op != 'app' or e.args[0] != 'mod':
    return None
  u, k = e.args[1]
  if u is i or u.op == 'idx' and u.args[1] is i and u.args[0].op == 'draw' and \
      u.args[0].args[1] == 'numpy.random.permutation':
    return k
  return None

"""Signs of terms, and the direction in which they change with one symbol.

Both are sound but incomplete: None stands for "not known".
"""
import math
from fractions import Fraction
import terms as t

INF = math.inf
ANY = (-INF, INF)
PI = (3.141592653589793 - 1e-12, 3.141592653589793 + 1e-12)
GROWING = ('log', 'ceil', 'floor', 'int', 'round', 'exp', 'sqrt', 'log1p', 'expm1')


class Signs:
  """bounds: for some terms, an interval (lo, hi) that contains the value.

  Intervals are closed, so a lower bound of zero allows zero; `positive` lists the
  terms that are larger than zero.
  falls: functions that are never negative and fall in one argument, as pairs of
  the name and the index of the argument.
  """

  def __init__(self, bounds=None, positive=(), falls=(), ordered=()):
    self.b = dict(bounds or {})
    self.pos = set(positive)
    self.falls = dict(falls)
    self.ordered = set(ordered)

  # ---------------------------------------------------------------- intervals

  def range(self, x):
    """An interval that contains the value."""
    if x in self.b:
      return self.b[x]
    if x in self.pos:
      return (0, INF)
    if x.op == 'num':
      return (float(x.args[0]), float(x.args[0]))
    if x is t.INF:
      return (INF, INF)
    if x.op == 'pi':
      return PI
    if x.op in ('poly', 'psum'):
      lo = hi = 0
      for m, c in x.args[0]:
        r = (float(c), float(c))
        for a, e in m:
          r = mul(r, self.power(a, e))
        lo, hi = add(lo, r[0], -INF), add(hi, r[1], INF)
      return (lo, hi)
    if x.op == 'ite':
      a, b = self.range(x.args[1]), self.range(x.args[2])
      return (min(a[0], b[0]), max(a[1], b[1]))
    if x.op in ('max2', 'min2') or x.op == 'app' and x.args[0] in ('max', 'min'):
      vs = values(x)
      if vs:
        f = max if which(x) == 'max' else min
        rs = [self.range(v) for v in vs]
        return (f(r[0] for r in rs), f(r[1] for r in rs))
    if x.op == 'abs':
      a, b = self.range(x.args[0])
      return (0 if a <= 0 <= b else min(abs(a), abs(b)), max(abs(a), abs(b)))
    if x.op == 'sum':
      return (0, INF) if t.nonneg(x) else ANY
    if x.op == 'app':
      f, a = x.args[0], x.args[1]
      if f == 'call:scipy.stats.norm.ppf':
        lo, hi = self.range(a[0])
        return (0 if lo >= .5 else -INF, 0 if hi <= .5 else INF)
      if f == 'exp':
        lo, hi = self.range(a[0])
        return (math.exp(lo) if lo > -700 else 0,
                math.exp(hi) if hi < 700 else INF)
      if f == 'call:scipy.stats.chi2.ppf' or f in self.falls or t.nonneg_atom(x):
        return (0, INF)
      if f == 'log':
        lo, hi = self.range(a[0])
        return (math.log(lo) if lo > 0 else -INF,
                math.log(hi) if 0 < hi < INF else INF)
      if f in ('floor', 'int', 'ceil', 'round'):
        lo, hi = self.range(a[0])
        g = {'floor': math.floor, 'ceil': math.ceil, 'round': round}.get(
            f, math.trunc)
        return (g(lo) if lo > -INF else lo, g(hi) if hi < INF else hi)
    return ANY

  def power(self, a, e):
    lo, hi = self.range(a)
    if e == 1:
      return (lo, hi)
    if e == int(e) and e > 0:
      e = int(e)
      vs = [pw(lo, e), pw(hi, e)]
      return (0, max(vs)) if e % 2 == 0 and lo < 0 < hi else (min(vs), max(vs))
    if e.denominator % 2 == 0 or lo >= 0:  # roots are real
      lo = max(lo, 0)
      if e > 0:
        return (pw(lo, float(e)), pw(hi, float(e)))
      return (0 if hi == INF else pw(hi, float(e)), INF if lo == 0 else
              pw(lo, float(e)))
    if e == int(e) and hi <= 0:
      return (-INF, 0) if int(e) % 2 else (0, INF)
    return ANY

  def sign(self, x):
    """1: at least zero, -1: at most zero, 0: zero, None: unknown."""
    lo, hi = self.range(x)
    if lo == hi == 0:
      return 0
    return 1 if lo >= 0 else -1 if hi <= 0 else None

  def decide(self, p):
    """The condition p, without the comparisons that the bounds settle."""
    known = {}
    for a in t.atoms_of(p):
      if a.op in ('lt0', 'eq0'):
        lo, hi = self.range(a.args[0])
        if lo > 0 or hi < 0:
          known[a] = a.op == 'lt0' and hi < 0
        elif a.op == 'lt0' and lo >= 0:
          known[a] = False
    for a, v in known.items():
      p = t.cofactor(p, a, v)
    return p

  # ---------------------------------------------------------------- direction

  def mono(self, x, v):
    """1: never falls in v, -1: never grows in v, 0: constant, None: unknown."""
    if not t.contains(v, x):
      return 0
    if x is v:
      return 1
    if x.op in ('poly', 'psum'):
      groups = {}
      for m, c in x.args[0]:
        dep = tuple(p for p in m if t.contains(v, p[0]))
        rest = tuple(p for p in m if not t.contains(v, p[0]))
        groups.setdefault(dep, []).append((rest, c))
      d = 0
      for dep, cs in groups.items():
        if dep:
          s = self.sign(t.from_poly(dict(cs)))
          p = self.product(dep, v)
          d = join(d, None if s is None or p is None else s * p)
      return d
    if x.op == 'ite':
      if t.contains(v, x.args[0]) and not clipped(x):
        return None
      return join(self.mono(x.args[1], v), self.mono(x.args[2], v))
    if x.op in ('max2', 'min2') or x.op == 'app' and x.args[0] in ('max', 'min'):
      vs = values(x)
      if vs:
        d = 0
        for y in self.attained(vs, which(x), v):
          d = join(d, self.mono(y, v))
        return d
    if x.op == 'idx' and x.args[0] in self.ordered:
      return self.mono(x.args[1], v) if not t.contains(v, x.args[0]) else None
    if x.op == 'app':
      f, a = x.args[0], x.args[1]
      if f in self.falls:
        i = self.falls[f]
        if any(t.contains(v, y) for j, y in enumerate(a) if j != i):
          return None
        d = self.mono(a[i], v)
        return None if d is None else -d
      if f in GROWING or f == 'call:scipy.stats.norm.ppf':
        return self.mono(a[0], v)
      if f == 'call:scipy.stats.chi2.ppf' and not t.contains(v, a[1]):
        return self.mono(a[0], v)
    return None

  def attained(self, vs, kind, v):
    """The values without those that another one beats wherever v may be."""
    out = list(vs)
    for y in vs:
      for z in out:
        if z is not y and y in out:
          ds = self.ends(t.sub(y, z) if kind == 'max' else t.sub(z, y), v)
          if ds and all(d in (0, -1) for d in ds):  # y never counts
            out.remove(y)
            break
    return out

  def clip(self, x):
    """The term without extrema that the bounds settle."""
    m = {}
    for y in t.subterms(x):
      if y.op in ('max2', 'min2'):
        vs = values(y)
        for v in self.b:
          if t.contains(v, y):
            vs = self.attained(vs, which(y), v)
        if len(vs) < len(values(y)):
          m[y] = t.extremum(which(y), vs)
    return t.replace(x, m) if m else x

  def ends(self, x, v):
    """The signs at both ends of the interval of v, if x is monotone in v."""
    if v not in self.b or self.mono(x, v) is None:
      return None
    lo, hi = self.b[v]
    if abs(lo) == INF or abs(hi) == INF:
      return None
    return [self.sign(t.replace(x, {v: t.num(Fraction(e))})) for e in (lo, hi)]

  def turns(self, x, v):
    """x changes its direction in v: an extremum of values that both count, one
    of which grows and one of which falls, with directions that are strict."""
    for y in t.subterms(x):
      if y.op not in ('max2', 'min2') or len(y.args[0]) != 2 or not t.contains(v, y):
        continue
      a, b = y.args[0]
      ds = self.ends(t.sub(a, b), v)
      if ds is None or sorted(ds, key=str) != sorted((1, -1), key=str):
        continue
      da, db = self.slope(a, v), self.slope(b, v)
      if not da or not db or da == db:
        continue
      # the rest must be strictly monotone in the extremum, and use v only there
      e = t.tmp('e', ty='num')
      z = t.replace(x, {y: e})
      if t.contains(v, z) or not t.contains(e, z):
        continue
      if Signs({**self.b, e: self.range(y)}, self.pos, self.falls,
               self.ordered).mono(z, e):
        return True
    return False

  def slope(self, x, v):
    """The sign of the factor of v in a linear term, if it is not zero."""
    f = t.sub(t.replace(x, {v: t.ONE}), t.replace(x, {v: t.ZERO}))
    if t.contains(v, f) or not t.rat_equal(x, t.add(t.mul(f, v), t.replace(
        x, {v: t.ZERO}))):
      return None
    lo, hi = self.range(f)
    return 1 if lo > 0 else -1 if hi < 0 else None

  def product(self, m, v):
    """The direction of a product of powers."""
    if len(m) == 1 and m[0][1] > 0 and m[0][1].denominator == 1 and m[
        0][1].numerator % 2:
      return self.mono(m[0][0], v)
    if len(m) == 1 and m[0][1].denominator % 2 == 0:  # roots are real
      d = self.mono(m[0][0], v)
      return None if d is None else d if m[0][1] > 0 else -d
    total, sign = 0, 1
    for a, e in m:
      s = self.sign(a)
      d = self.mono(a, v)
      if e.denominator % 2 == 0:
        s = 1
      if s is None or d is None:
        return None
      size = d * s * (1 if e > 0 else -1)  # the direction of |a^e|
      if s < 0 and e.numerator % 2:
        sign = -sign
      total = join(total, size)
    return None if total is None else total * sign


def clipped(x):
  """The branches meet where the condition changes: an extremum of the two."""
  c = t.atom(x.args[0]) if not isinstance(x.args[0], t.T) else x.args[0]
  if c.op != 'lt0':
    return False
  p, d = t.to_poly(c.args[0]), t.to_poly(t.sub(x.args[1], x.args[2]))
  if set(p) != set(d):
    return False
  return len({d[m] / p[m] for m in p}) == 1


def join(a, b):
  if a is None or b is None:
    return None
  return a or b if not (a and b) else a if a == b else None


def values(x):
  """The values that a maximum or minimum is taken of, where they are known."""
  if x.op in ('max2', 'min2'):
    return list(x.args[0])
  a = x.args[1]
  if len(a) == 1 and a[0].op == 'seq':
    return list(a[0].args[1])
  return list(a) if len(a) > 1 else None


def which(x):
  return x.op[:3] if x.op in ('max2', 'min2') else x.args[0]


def add(a, b, worst):
  c = a + b
  return worst if math.isnan(c) else c


def mul(a, b):
  ps = []
  for x in a:
    for y in b:
      p = x * y
      ps.append(0 if math.isnan(p) else p)
  return (min(ps), max(ps))


def pw(x, e):
  try:
    return x**e
  except OverflowError:
    return INF
  except ZeroDivisionError:
    return INF

"""Hash-consed value terms.

A term stands for a value that a program point computes, as a function of the
inputs of the analysed function.  Equal terms are the same object, so value
equality of two expressions is an identity test (global value numbering).
Conditional values are ordered decision diagrams ("gated" values), arithmetic is
kept as a sum of monomials, and sequences are kept as map/filter/concatenation
over an index domain, so that a loop, a comprehension, zip, enumerate and an
array operation computing the same sequence get the same term.
"""
import math
from fractions import Fraction
import itertools

NUMERIC = ('num', 'poly', 'inf', 'nan', 'pi', 'sum')


class T:
  __slots__ = ('op', 'args', 'id', 'ty', 'fv', 'h', 'lost')

  def __repr__(self):
    return show(self)


_tab = {}
_ids = itertools.count()
_EMPTY = frozenset()


def mk(op, *args, ty=None):
  key = (op,) + args
  t = _tab.get(key)
  if t is not None:
    return t
  t = T()
  t.op, t.args, t.id, t.ty = op, args, next(_ids), ty
  fv, h, lost = _EMPTY, 0, op == 'lost'
  for a in _flat(args):
    if a.fv:
      fv = fv | a.fv
    if a.h > h:
      h = a.h
    lost = lost or a.lost
  if op in BINDERS:
    bv = args[-1]  # height of the bound variable
    fv = frozenset(v for v in fv if not (v.op == 'bv' and v.args[0] == bv))
    h = max(h, bv + 1)
  if op in ('sym', 'tmp', 'bv'):
    fv = frozenset([t])
  t.fv, t.h, t.lost = fv, h, lost
  _tab[key] = t
  return t


def _flat(args):
  for a in args:
    if isinstance(a, T):
      yield a
    elif isinstance(a, tuple):
      yield from _flat(a)


# Binders keep the height of their bound variable in the last argument.
BINDERS = {'map', 'sum', 'any', 'famall', 'fold'}

_tmp = itertools.count()


def tmp(hint='k', ty=None):
  return mk('tmp', next(_tmp), hint, ty=ty)


_symn = itertools.count()


def sym(name, ty=None):
  """A fresh symbol."""
  return mk('sym', name, next(_symn), ty=ty)


TRUE = mk('true')
FALSE = mk('false')
NONE = mk('none')
INF = mk('inf')
NAN = mk('nan')
PI = mk('pi')
BOTTOM = mk('bottom')
ELLIPSIS = mk('ellipsis')


def num(x):
  return mk('num', Fraction(x))


def string(s):
  return mk('str', s)


ZERO, ONE = num(0), num(1)


def boolean(b):
  return TRUE if b else FALSE


def lost(why, *deps):
  """A value the analysis lost track of."""
  return mk('lost', why, next(_tmp))


# ----------------------------------------------------------- decision diagrams


def atom(a):
  """The boolean value of an atom."""
  return mk('ite', a, TRUE, FALSE)


def _top(ts):
  best = None
  for t in ts:
    if t.op == 'ite':
      a = t.args[0]
      if best is None or a.id < best.id:
        best = a
  return best


def _cof(t, a, val):
  if t.op == 'ite' and t.args[0] is a:
    return t.args[1] if val else t.args[2]
  return t


_ite_memo = {}


def ITE(c, h, l):
  """if c then h else l, for a boolean term c."""
  if c is TRUE:
    return h
  if c is FALSE:
    return l
  if h is l:
    return h
  if c.op != 'ite':
    c = truth(c)
    return ITE(c, h, l)
  if h is TRUE and l is FALSE:
    return c
  key = (c.id, h.id, l.id)
  r = _ite_memo.get(key)
  if r is not None:
    return r
  a = _top((c, h, l))
  x = ITE(_cof(c, a, 1), _cof(h, a, 1), _cof(l, a, 1))
  y = ITE(_cof(c, a, 0), _cof(h, a, 0), _cof(l, a, 0))
  r = x if x is y or _vacuous(a, x, y) else mk('ite', a, x, y)
  if r is x:
    r = y
  _ite_memo[key] = r
  return r


def _vacuous(a, x, y):
  """Whether x is y where a holds: x == c and one of them is c."""
  if a.op != 'eq0' or x.op != 'num' and y.op != 'num' or \
      x.op == 'ite' or y.op == 'ite' or not (is_number(x) and is_number(y)):
    return False
  return _norm_diff(x, y)[1] is a.args[0]


def is_number(x):
  return x.op in ('num', 'poly', 'sym', 'idx', 'app') and is_scalar(x)


def Not(c):
  return ITE(c, FALSE, TRUE)


def And(*cs):
  r = TRUE
  for c in cs:
    r = ITE(c, r, FALSE) if r is not FALSE else FALSE
  return r


def Or(*cs):
  r = FALSE
  for c in cs:
    r = ITE(c, TRUE, r)
  return r


def Implies(a, b):
  return Or(Not(a), b)


_restr = {}


def restrict(f, care):
  """A value equal to f wherever care holds, and as simple as possible."""
  if care is TRUE or f.op != 'ite':
    return f
  if care is FALSE:
    return f
  key = (f.id, care.id)
  r = _restr.get(key)
  if r is not None:
    return r
  a = care.args[0]
  fa = f.args[0]
  if a.id < fa.id:
    if care.args[1] is FALSE:
      r = restrict(f, care.args[2])
    elif care.args[2] is FALSE:
      r = restrict(f, care.args[1])
    else:
      r = restrict(f, Or(care.args[1], care.args[2]))
  elif a is fa:
    if care.args[1] is FALSE:
      r = restrict(f.args[2], care.args[2])
    elif care.args[2] is FALSE:
      r = restrict(f.args[1], care.args[1])
    else:
      r = ITE(
          atom(a), restrict(f.args[1], care.args[1]),
          restrict(f.args[2], care.args[2]))
  else:
    r = ITE(atom(fa), restrict(f.args[1], care), restrict(f.args[2], care))
  _restr[key] = r
  return r


def same_under(a, b, care):
  return ITE(care, a, BOTTOM) is ITE(care, b, BOTTOM)


def entails(a, b):
  return And(a, Not(b)) is FALSE


def lift(f):
  """Makes a term operation distribute over conditional arguments."""

  def g(*args, **kw):
    a = _top([x for x in args if isinstance(x, T)])
    if a is None:
      return f(*args, **kw)
    hi = g(*[_cof(x, a, 1) if isinstance(x, T) else x for x in args], **kw)
    lo = g(*[_cof(x, a, 0) if isinstance(x, T) else x for x in args], **kw)
    return ITE(atom(a), hi, lo)

  g.leaf = f
  return g


def leaves(t, g=TRUE):
  """The (guard, value) pairs of a conditional value."""
  if t.op == 'ite':
    a = atom(t.args[0])
    return leaves(t.args[1], And(g, a)) + leaves(t.args[2], And(g, Not(a)))
  return [] if g is FALSE else [(g, t)]


def leafset(t):
  out = []
  seen = set()
  st = [t]
  while st:
    x = st.pop()
    if x.id in seen:
      continue
    seen.add(x.id)
    if x.op == 'ite':
      st += [x.args[1], x.args[2]]
    else:
      out.append(x)
  return out


def atoms_of(t):
  out, seen, st = [], set(), [t]
  while st:
    x = st.pop()
    if x.id in seen or x.op != 'ite':
      continue
    seen.add(x.id)
    if x.args[0] not in out:
      out.append(x.args[0])
    st += [x.args[1], x.args[2]]
  return out


def is_bool(t):
  return t in (TRUE, FALSE) or (t.op == 'ite' and
                                all(x in (TRUE, FALSE) for x in leafset(t)))


# ------------------------------------------------------------------ arithmetic


def to_poly(t):
  if t.op == 'num':
    return {(): t.args[0]} if t.args[0] else {}
  if t is TRUE:
    return {(): Fraction(1)}
  if t is FALSE:
    return {}
  if t.op == 'poly':
    return dict(t.args[0])
  return {((t, Fraction(1)),): Fraction(1)}


def from_poly(d):
  d = {m: c for m, c in d.items() if c}
  if not d:
    return ZERO
  infm = ((INF, Fraction(1)),)
  if infm in d and all(all(a is not INF for a, _ in m) for m in d if m != infm):
    return INF if d[infm] > 0 else mk('poly', ((infm, Fraction(-1)),))
  if len(d) == 1:
    (m, c), = d.items()
    if not m:
      return num(c)
    if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].op != 'psum':
      return m[0][0]
  return mk(
      'poly', tuple(sorted(d.items(), key=lambda x: _mkey(x[0]))), ty=None)


def _mkey(m):
  return tuple((a.id, e) for a, e in m)


def _mono_mul(m1, m2):
  d = {}
  for a, e in m1 + m2:
    d[a] = d.get(a, 0) + e
  return d


def _padd(p, q, k=1):
  r = dict(p)
  for m, c in q.items():
    r[m] = r.get(m, 0) + k * c
    if not r[m]:
      del r[m]
  return r


def _pmul(p, q):
  r = {}
  for m1, c1 in p.items():
    for m2, c2 in q.items():
      d = _mono_mul(m1, m2)
      extra = []
      coef = c1 * c2
      mono = []
      for a, e in d.items():
        if not e:
          continue
        if a.op == 'num':  # a rational under a root
          if e.denominator == 1:
            coef *= a.args[0]**int(e)
            continue
          if e >= 1 or e < 0:
            fl = e.numerator // e.denominator
            coef *= a.args[0]**fl
            e -= fl
        if a.op == 'psum' and e > 0 and e.denominator == 1:
          extra.append((dict(a.args[0]), int(e)))
          continue
        if a.op == 'abs' and e.denominator == 1 and e % 2 == 0:
          b = to_poly(a.args[0])
          extra.append((_ppow(b, abs(int(e)))
                        if e > 0 else to_poly(power(a.args[0], num(e))), 1))
          continue
        mono.append((a, e))
      term = {tuple(sorted(mono, key=lambda x: x[0].id)): coef}
      for b, n in extra:
        for _ in range(n):
          term = _pmul(term, b)
      r = _padd(r, term)
  return r


def _ppow(p, n):
  r = {(): Fraction(1)}
  for _ in range(n):
    r = _pmul(r, p)
  return r


def _vec(t):
  """Elementwise arrays given as a map."""
  return t.op == 'map' and t.args[0] == 'array' or t.op == 'seq' and t.args[
      0] == 'array'


def is_full(t):
  """An array that holds the same value everywhere."""
  return t.op == 'app' and t.args[0] == 'full'


def full_like(a, v):
  return mk('app', 'full', (a.args[1][0], v), (), ty=a.ty)


def vectorish(t):
  if is_vector(t):
    return True
  if t.op == 'sum':
    return vectorish(t.args[1])
  if t.op in ('poly', 'psum'):
    return any(vectorish(a) for m, _ in t.args[0] for a, _ in m)
  return False


def _full2(a, b, f):
  """Arithmetic of constant arrays."""
  if is_full(a) and is_full(b):
    if a.args[1][0] is b.args[1][0]:
      return full_like(a, f(a.args[1][1], b.args[1][1]))
    return None
  x, y = (a, b) if is_full(a) else (b, a)
  v = x.args[1][1]
  g = (lambda p, q: f(p, q)) if x is a else (lambda p, q: f(q, p))
  if vectorish(y):
    if x.ty != 'arr1' and x.ty != y.ty:
      return None
    r = g(v, y)
    return full_like(x, r) if r.op in ('num', 'nan', 'inf', 'true',
                                       'false') else r
  if is_scalar(y):
    return full_like(x, g(v, y))
  return None


def _arith2(a, b, f):
  """Elementwise lifting of a binary operation over array maps."""
  if is_full(a) or is_full(b):
    return _full2(a, b, f)
  va, vb = _vec(a), _vec(b)
  if not (va or vb):
    return None
  if a.op == 'seq' and b.op == 'seq':
    if len(a.args[1]) == len(b.args[1]):
      return seq('array', [f(x, y) for x, y in zip(a.args[1], b.args[1])])
    return lost('shapes')
  if va and vb:
    if a.op == 'map' and b.op == 'map' and a.args[1] is b.args[1] and a.args[
        2] is b.args[2]:
      k = tmp()
      return mkmap('array', a.args[1], inst(a, k, 2), f(
          inst(a, k, 3), inst(b, k, 3)), k)
    return None
  v, s = (a, b) if va else (b, a)
  if not is_scalar(s):
    if s.op in ('idx', 'app') or s.op == 'sym':
      if v.op == 'map' and v.args[2] is TRUE and s.op != 'sym':
        return None
    if s.op not in ('sym', 'idx', 'app', 'poly'):
      return None
  if v.op == 'seq':
    return seq('array', [(f(x, s) if va else f(s, x)) for x in v.args[1]])
  k = tmp()
  e = inst(v, k, 3)
  return mkmap('array', v.args[1], inst(v, k, 2), f(e, s) if va else f(s, e), k)


SCALAR_APPS = {
    'len', 'mean', 'ndim', 'exp1', 'sumall', 'min', 'max', 'isnan1', 'shape1',
    'count'
}


def is_scalar(t):
  if t.op in ('num', 'inf', 'nan', 'pi', 'true', 'false', 'sum', 'str', 'enum'):
    return True
  if t.ty in ('num', 'int', 'float', 'bool', 'str'):
    return True
  if t.op == 'bv' or t.op == 'tmp' and t.ty is None:
    return True
  if t.op == 'poly':
    return all(is_scalar(a) for m, _ in t.args[0] for a, _ in m)
  if t.op == 'psum':
    return all(is_scalar(a) for m, _ in t.args[0] for a, _ in m)
  if t.op in ('min2', 'max2'):
    return all(is_scalar(a) for a in t.args[0])
  if t.op == 'abs':
    return is_scalar(t.args[0])
  if t.op == 'ite':
    return all(is_scalar(x) for x in leafset(t))
  if t.op == 'app':
    if t.args[0] in SCALAR_APPS:
      return True
    if t.args[0] in ('log', 'exp', 'abs', 'ceil', 'floor', 'int', 'float',
                     'clip', 'call:scipy.stats.norm.ppf', 'sqrt', 'round',
                     'call:scipy.stats.chi2.ppf', 'call:numpy.linalg.det'):
      return all(is_scalar(x) for x in t.args[1]) or t.args[0].endswith('det')
  return False


def _add(a, b):
  if a is BOTTOM or b is BOTTOM:
    return BOTTOM
  if (a is NAN or b is NAN) and not (is_full(a) or is_full(b)):
    return NAN
  if a.op == 'str' and b.op == 'str':
    return string(a.args[0] + b.args[0])
  if is_strish(a) or is_strish(b):
    return strcat(a, b)
  r = _arith2(a, b, add)
  if r is not None:
    return r
  if is_listish(a) and is_listish(b):
    return cat('list', [a, b])
  return from_poly(_padd(to_poly(a), to_poly(b)))


def is_strish(t):
  return t.op in ('str', 'strcat') or t.ty == 'str' or (
      t.op == 'app' and t.args[0] == 'str')


def strcat(a, b):
  parts = []
  for x in (a, b):
    for y in (x.args[0] if x.op == 'strcat' else (x,)):
      if parts and y.op == 'str' and parts[-1].op == 'str':
        parts[-1] = string(parts[-1].args[0] + y.args[0])
      elif y.op == 'str' and not y.args[0]:
        continue
      else:
        parts.append(y)
  if len(parts) == 1:
    return parts[0]
  return mk('strcat', tuple(parts), ty='str')


def is_listish(t):
  if t.op in ('seq', 'map', 'cat'):
    return t.args[0] in ('list', 'tuple')
  return isinstance(t.ty, tuple) and t.ty[0] in ('list', 'tuple')


add = lift(_add)


def _mul(a, b):
  if a is BOTTOM or b is BOTTOM:
    return BOTTOM
  if (a is NAN or b is NAN) and not (is_full(a) or is_full(b)):
    return NAN
  r = _arith2(a, b, mul)
  if r is not None:
    return r
  if is_listish(a) and not is_listish(b):
    return repeat_seq(a, b)
  if is_listish(b) and not is_listish(a):
    return repeat_seq(b, a)
  for x, y in ((a, b), (b, a)):
    if (x is INF or x is neg_inf()) and y.op == 'poly' and len(
        y.args[0]) > 1 and is_scalar(y) and not any(z is INF for z in subterms(y)):
      v = mul(num(-1), x)
      return ITE(lt(ZERO, y), x, ITE(lt(y, ZERO), v, NAN))
  pa, pb = to_poly(a), to_poly(b)
  return from_poly(_pmul(pa, pb))


def neg_inf():
  return mk('poly', ((((INF, Fraction(1)),), Fraction(-1)),))


mul = lift(_mul)


def repeat_seq(s, n):
  if s.op == 'seq' and n.op == 'num':
    return seq(s.args[0], list(s.args[1]) * int(n.args[0]))
  if s.op == 'seq' and len(s.args[1]) == 1:
    k = tmp()
    return mkmap(s.args[0], n, TRUE, s.args[1][0], k)
  return mk('app', 'repeat', (s, n), ())


def neg(a):
  return mul(num(-1), a)


def sub(a, b):
  return add(a, neg(b))


def _pow(a, e):
  if a is BOTTOM:
    return BOTTOM
  if a is NAN:
    return NAN
  r = _arith2(a, e, power)
  if r is not None:
    return r
  if e.op != 'num':
    if a is ONE:
      return ONE
    return mk('app', 'pow', (a, e), ())
  e = e.args[0]
  if e == 0:
    return ONE
  if a.op == 'num':
    if e.denominator == 1:
      if a.args[0] == 0:
        return ZERO if e > 0 else lost('division by zero')
      return num(a.args[0]**int(e))
    if a.args[0] == 0:
      return ZERO
    # exact roots
    n, d = a.args[0].numerator, a.args[0].denominator
    if n > 0 and e.denominator == 2:
      import math
      rn, rd = math.isqrt(n), math.isqrt(d)
      if rn * rn == n and rd * rd == d:
        return num(Fraction(rn, rd)**e.numerator)
  if a is INF:
    return INF if e > 0 else ZERO
  p = to_poly(a)
  if e.denominator == 1 and e > 0:
    return from_poly(_ppow(p, int(e)))
  if len(p) == 1:  # a monomial
    (m, c), = p.items()
    mono = []
    coef = Fraction(1)
    for x, k in m:
      if (e.denominator % 2 == 0 and k.denominator == 1 and k % 2 == 0 and
          not nonneg_atom(x)):
        mono.append((absval(x), k * e))
      else:
        mono.append((x, k * e))
    if e.denominator == 1:
      coef = c**int(e)
    elif c < 0:
      return mk('app', 'pow', (a, num(e)), ())
    elif c != 1:
      mono += [(num(q), e * k) for q, k in primes(c)]
    return from_poly(_pmul({tuple(): coef}, {tuple(mono): Fraction(1)}))
  # a sum: take out what divides every summand, then normalise its content
  # (for a root, both forms are taken to be real)
  ks = {x: [] for m in p for x, _ in m}
  for m in p:
    have = dict(m)
    for x in ks:
      ks[x].append(have.get(x, Fraction(0)))
  com = {x: min(v) for x, v in ks.items() if min(v)}
  if com:
    f = tuple(sorted(com.items(), key=lambda x: x[0].id))
    inv = {tuple((x, -k) for x, k in f): Fraction(1)}
    return mul(power(from_poly({f: Fraction(1)}), num(e)),
               power(from_poly(_pmul(p, inv)), num(e)))
  c0 = _content(p)
  lead = sorted(p, key=_mkey)[0]
  if p[lead] < 0 and e.denominator % 2 == 1:
    c0 = -c0
  q = {m: c / c0 for m, c in p.items()}
  base = mk('psum', tuple(sorted(q.items(), key=lambda x: _mkey(x[0]))))
  k = power(num(c0), num(e)) if c0 != 1 else ONE
  return mul(k, from_poly({((base, e),): Fraction(1)}))


def primes(c):
  """A positive rational as (prime, exponent) pairs; a large cofactor stays."""
  out = []
  for n, sign in ((c.numerator, 1), (c.denominator, -1)):
    q = 2
    while n > 1:
      if q > 1000:
        q = n
      k = 0
      while n % q == 0:
        n //= q
        k += 1
      if k:
        out.append((Fraction(q), sign * k))
      q += 1
  return out


def _content(p):
  from math import gcd
  g, l = 0, 1
  for c in p.values():
    g = gcd(g, c.numerator)
    l = l * c.denominator // gcd(l, c.denominator)
  return Fraction(g, l)


power = lift(_pow)


def div(a, b):
  return mul(a, power(b, num(-1)))


def sqrt(a):
  return power(a, num(Fraction(1, 2)))


def nonneg_atom(x):
  return x.op in ('abs', 'pi', 'inf') or (x.op == 'num' and x.args[0] >= 0) or (
      x.op == 'app' and x.args[0] in ('len', 'count', 'exp', 'abs'))


def nonneg(p):
  """p is a sum of products of values that are never negative."""
  if p.op == 'sum':
    return all(b.op == 'num' and b.args[0] >= 0 for b in leafset(p.args[1]))
  if p.op == 'poly':
    return all(c > 0 and all(
        x.op != 'pow' and e > 0 and e.denominator == 1 and (
            e % 2 == 0 or x.op == 'sum' and nonneg(x) or
            x.op == 'app' and x.args[0] == 'len') for x, e in m)
               for m, c in p.args[0])
  return p.op == 'app' and p.args[0] == 'len'


def absval(x):
  if nonneg_atom(x) or nonneg(x):
    return x
  return mk('abs', x)


def rat_equal(a, b):
  """Equality of rational expressions, by clearing the denominators."""
  return is_zero(sub(a, b))


def is_zero(d):
  if d is ZERO:
    return True
  if d.op == 'ite':
    return all(is_zero(x) for x in leafset(d))
  if d.op != 'poly':
    return False
  for _ in range(8):
    p = to_poly(d)
    worst = {}
    for m in p:
      for a, e in m:
        if a.op == 'psum' and e < 0:
          worst[a] = min(worst.get(a, 0), e)
    if not worst:
      return d is ZERO
    f = {tuple(sorted(((a, -e) for a, e in worst.items()),
                      key=lambda x: x[0].id)): Fraction(1)}
    d = from_poly(_pmul(p, f))
    if d is ZERO:
      return True
  return False


# ----------------------------------------------------------------- comparisons


def _norm_diff(a, b):
  """a-b as (sign, normalised poly) or a Fraction."""
  d = _padd(to_poly(a), to_poly(b), -1)
  if not d:
    return 0, None
  if list(d) == [()]:
    return (1 if d[()] > 0 else -1), None
  lead = sorted((m for m in d if m), key=_mkey)[0]
  c = _content(d)
  s = 1
  if d[lead] < 0:
    c, s = -c, -1
  return s, from_poly({m: x / c for m, x in d.items()})


def _lt(a, b):
  """a < b."""
  if a is NAN or b is NAN:
    return FALSE
  r = _arith2(a, b, lt)
  if r is not None:
    return r
  if a.op == 'str' and b.op == 'str':
    return boolean(a.args[0] < b.args[0])
  x = _split_extremum(a, b)
  if x is not None:
    return x
  s, p = _norm_diff(a, b)
  if p is None:
    return boolean(s < 0)
  if p.op == 'inf' or (p.op == 'poly' and p is neg(INF)):
    pos = (p.op == 'inf') == (s > 0)
    return boolean(not pos)
  if is_vector(a) or is_vector(b):
    return mk('vlt', p, ZERO) if s > 0 else mk('vlt', ZERO, p)
  L, E = _below(p), mk('eq0', p)
  if nonneg(p):
    return FALSE if s > 0 else Not(_eq0(p))
  if s > 0:
    return L
  return And(Not(L), Not(atom(E)))


def _below(p):
  """p < 0; a whole number of at least -1 is below 0 when it is -1."""
  q = add(p, ONE)
  if q.op != 'poly' and intlike(q) and nonneg(q):
    return _eq0(q)
  return atom(mk('lt0', p))


def _eq0(p):
  """p == 0 for p >= 0; a count is 0 when nothing is counted."""
  r = TRUE
  for m, c in to_poly(p).items():
    if c <= 0 or len(m) != 1 or m[0][0].op != 'sum' or m[0][1] != 1:
      return atom(mk('eq0', p))
    s, k = m[0][0], tmp(ty='int')
    b = inst(s, k, 1)
    g = FALSE
    for h, v in leaves(b):
      if v is not ZERO:
        if v.op != 'num' or v.args[0] < 0:
          return atom(mk('eq0', p))
        g = Or(g, h)
    r = And(r, Not(mkany(s.args[0], g, k)))
  return r


def _split_extremum(a, b):
  """a < b where one side holds the least or greatest of some scalars."""
  for x, sign in ((a, 1), (b, -1)):
    if x.op in ('min2', 'max2'):
      y, c, rest = x, 1, ZERO
    elif x.op == 'poly':
      hit = [(m[0][0], c) for m, c in x.args[0]
             if len(m) == 1 and m[0][1] == 1 and m[0][0].op in ('min2', 'max2')]
      if len(hit) != 1:
        continue
      y, c = hit[0]
      rest = sub(x, mul(num(c), y))
    else:
      continue
    down = (y.op == 'min2') == (c * sign > 0)
    f = lambda v: add(rest, mul(num(c), v))
    cs = [lt(f(v), b) if sign > 0 else lt(a, f(v)) for v in y.args[0]]
    return Or(*cs) if down else And(*cs)
  return None


def _nan_of(a):
  return a is NAN


lt = lift(_lt)


def gt(a, b):
  return lt(b, a)


@lift
def le(a, b):
  if a is NAN or b is NAN:
    return FALSE
  if is_full(a) or is_full(b):
    r = _arith2(a, b, le)
    if r is not None:
      return r
  return maybe_map_not(gt(a, b))


def ge(a, b):
  return le(b, a)


def maybe_map_not(t):
  return bmap(t, Not)


def bmap(t, f):
  """Applies a boolean function to a boolean or elementwise to a mask."""
  if t.op == 'ite' and not is_bool(t):
    return ITE(atom(t.args[0]), bmap(t.args[1], f), bmap(t.args[2], f))
  if t.op == 'map':
    k = tmp()
    return mkmap(t.args[0], t.args[1], inst(t, k, 2), f(truth(inst(t, k, 3))), k)
  if t.op == 'seq':
    return seq(t.args[0], [f(truth(x)) for x in t.args[1]])
  if is_full(t):
    return full_like(t, f(truth(t.args[1][1])))
  if t.op == 'vnot':
    return t.args[0] if f is Not else f(truth(t))
  if t.op in ('app', 'sym', 'draw', 'idx', 'veq', 'vlt') and not is_scalar(t):
    return mk('vnot', t) if f is Not else f(truth(t))
  return f(truth(t))


OBJISH = ('ref', 'fref', 'str', 'none', 'enum', 'func', 'class', 'bound',
          'strcat', 'true', 'false', 'ext', 'closure', 'defaulted', 'partial')


def objish(t):
  return t.op in OBJISH or (isinstance(t.ty, tuple) and
                            t.ty[0] in ('cls', 'enum'))or t.ty == 'str'


def _eq(a, b):
  if a is b:
    if a.op in ('map', 'seq') and a.args[0] == 'array':
      pass
    else:
      return TRUE
  r = _arith2(a, b, eq)
  if r is not None:
    return r
  if a in APART and b in APART:
    return FALSE
  if objish(a) or objish(b):
    return same(a, b)
  if a.op == 'seq' and b.op == 'seq' and a.args[0] != 'array':
    if len(a.args[1]) != len(b.args[1]):
      return FALSE
    return And(*[eq(x, y) for x, y in zip(a.args[1], b.args[1])])
  for x, y in ((a, b), (b, a)):
    if x.op == 'seq' and not x.args[1] and (y.op in ('map', 'cat') or
                                            is_listish(y)):
      return eq(length(y), ZERO)
  for x, y in ((a, b), (b, a)):
    if x in (INF, neg(INF)) and y.op != 'num' and y not in (
        INF, neg(INF), NAN) and not is_vector(y):
      neg_ = lt(y, ZERO)
      return And(batom('isinf', y), Not(neg_) if x is INF else neg_)
  if is_vector(a) != is_vector(b) or (is_vector(a) and is_vector(b)):
    # elementwise comparison of an opaque array
    return mk('veq', *sorted((a, b), key=lambda t: t.id))
  s, p = _norm_diff(a, b)
  if p is None:
    return boolean(s == 0)
  L, E = _below(p), mk('eq0', p)
  if nonneg(p):
    return _eq0(p)
  return And(Not(L), atom(E))


def is_vector(t):
  if t.ty in ('arr', 'arr1', 'arr2'):
    return True
  if t.op == 'poly':
    return any(is_vector(a) for m, _ in t.args[0] for a, _ in m)
  if t.op == 'draw':
    return t.ty in (None, 'arr')
  return False


eq = lift(_eq)


def _same(a, b):
  if a is b:
    return TRUE
  consts = ('str', 'none', 'enum', 'true', 'false', 'num', 'ref', 'func',
            'class', 'inf', 'nan', 'pi', 'ellipsis')
  if a.op in consts and b.op in consts:
    if {a.op, b.op} <= {'true', 'false', 'num'}:
      return boolean(to_poly(a) == to_poly(b))
    return FALSE
  for x, y in ((a, b), (b, a)):
    if x is NONE and (y.op in ('seq', 'map', 'cat', 'poly', 'app', 'strcat',
                               'draw', 'idx', 'fref', 'bound', 'sum', 'min2',
                               'max2', 'hcat', 'psum') or
                      y.ty not in (None, 'opt')):
      return FALSE
    if x.op in ('true', 'false') and is_bool(y):
      return y if x is TRUE else Not(y)
  if a.op == 'idx' and b.op == 'idx' and a.args[0] is b.args[0] and distinct(
      a.args[0]):
    return eq(a.args[1], b.args[1])
  if a in APART and b in APART:
    return FALSE
  if is_cls(a.ty) and is_cls(b.ty) and not (
      a.ty[1].is_subclass(b.ty[1]) or b.ty[1].is_subclass(a.ty[1])):
    return FALSE
  return atom(mk('same', *sorted((a, b), key=lambda t: t.id)))


same = lift(_same)


def is_cls(ty):
  return isinstance(ty, tuple) and ty[0] == 'cls'


APART = set()  # objects assumed to be pairwise different
DISTINCT = set()  # sequences whose elements are assumed pairwise distinct


SUBSEQ = {}  # loop-head sequences known to be subsequences of another one


def dedup(s):
  """The distinct elements in the order of their first occurrences."""
  if s.op == 'ite':
    return ITE(atom(s.args[0]), dedup(s.args[1]), dedup(s.args[2]))
  if distinct(s) or s.op == 'app' and s.args[0] == 'dedup':
    return s
  if s.op == 'seq' and len(s.args[1]) <= 1:
    return s
  if s.op == 'seq' and all(x.op in ('num', 'str') for x in s.args[1]):
    return seq(s.args[0], list(dict.fromkeys(s.args[1])))
  if s.op == 'map':
    b = s.args[3]
    if b.op == 'idx' and b.args[1] is mk('bv', s.args[-1]) and distinct(
        b.args[0]) or b is mk('bv', s.args[-1]):
      return s
  r = mk('app', 'dedup', (s,), (), ty=type_of(s))
  DISTINCT.add(r)
  return r


def distinct(s):
  if s in DISTINCT:
    return True
  # collections of objects (arms) list every object once
  e = elem_type(s)
  return isinstance(e, tuple) and e[0] == 'cls'


def _truth(t):
  if t in (TRUE, FALSE):
    return t
  if t is NONE:
    return FALSE
  if t.op == 'num':
    return boolean(t.args[0] != 0)
  if t.op in ('inf', 'pi', 'nan'):
    return TRUE
  if t.op == 'str':
    return boolean(bool(t.args[0]))
  if t.op in ('enum', 'func', 'class', 'bound', 'fref', 'closure', 'defaulted',
              'partial'):
    return TRUE
  if t.op in ('seq', 'map', 'cat') or is_listish(t):
    return Not(eq(length(t), ZERO))
  if t.op in ('poly', 'sum') or t.ty in ('num', 'int', 'float'):
    return Not(eq(t, ZERO))
  if t.op == 'app' and t.args[0] in SCALAR_APPS:
    return Not(eq(t, ZERO))
  return atom(mk('truth', t))


truth = lift(_truth)

# ------------------------------------------------------------------- sequences


def close(k, *bodies):
  """Abstracts the temporary k out of the bodies; returns (height, bodies)."""
  h = max([b.h for b in bodies])
  bv = mk('bv', h)
  return h, [subst(b, {k: bv}) for b in bodies]


def mkmap(kind, n, guard, body, k):
  """[body(k) for k in range(n) if guard(k)]."""
  if guard is FALSE or n is ZERO:
    return seq(kind, [])
  if n.op == 'num' and n.args[0] <= 64 and n.args[0].denominator == 1:
    parts = []
    for i in range(int(n.args[0])):
      g = subst(guard, {k: num(i)})
      b = subst(body, {k: num(i)})
      parts.append((g, b))
    if all(g in (TRUE, FALSE) for g, _ in parts):
      return seq(kind, [b for g, b in parts if g is TRUE])
    # conditional membership: a gated concatenation
    r = seq(kind, [])
    for g, b in parts:
      r = ITE(g, cat(kind, [r, seq(kind, [b])]), r)
    return r
  if n.op == 'ite':
    a = n.args[0]
    return ITE(
        atom(a), mkmap(kind, n.args[1], guard, body, k),
        mkmap(kind, n.args[2], guard, body, k))
  # loop-invariant conditions are lifted out
  for t in (guard, body):
    for a in atoms_of(t):
      if k not in a.fv:
        return ITE(
            atom(a),
            mkmap(kind, n, cofactor(guard, a, 1), cofactor(body, a, 1), k),
            mkmap(kind, n, cofactor(guard, a, 0), cofactor(body, a, 0), k))
  if guard.op == 'ite':
    guard = restrict(guard, lt(k, n))
    if guard is FALSE:
      return seq(kind, [])
  body = restrict(body, And(guard, lt(k, n)))
  if guard is TRUE and body.op == 'idx' and body.args[1] is k and k not in body.args[
      0].fv and length(body.args[0]) is n:
    return body.args[0]
  h, (g, b) = close(k, guard, body)
  return mk('map', kind, n, g, b, h)


def mkfold(n, inits, steps, heads, k, which):
  """Component `which` after n iterations of heads := steps, from inits.

  Used for recurrences without a closed form; components that the wanted one
  does not depend on are dropped and the others are numbered in the order in
  which they are reached, so the result does not depend on names or order.
  """
  if n is ZERO:
    return inits[which]
  order = [which]
  pos = {h: i for i, h in enumerate(heads)}
  for i in order:
    for x in subterms_in_order(steps[i]):
      j = pos.get(x)
      if j is not None and j not in order:
        order.append(j)
  h = max([steps[i].h for i in order])
  m = {k: mk('bv', h)}
  for p, i in enumerate(order):
    m[heads[i]] = mk('bv', h, p, ty=heads[i].ty)
  return mk('fold', n, tuple(inits[i] for i in order),
            tuple(subst(steps[i], m) for i in order),
            tuple(heads[i].ty if isinstance(heads[i].ty, str) else None
                  for i in order), h)


def subterms_in_order(t):
  out, seen = [], set()

  def go(x):
    if x.id in seen:
      return
    seen.add(x.id)
    out.append(x)
    for y in _flat(x.args):
      go(y)

  go(t)
  return out


def cofactor(t, a, v):
  if t.op != 'ite':
    return t
  if t.args[0].id > a.id:
    return t
  if t.args[0] is a:
    return t.args[1] if v else t.args[2]
  return ITE(
      atom(t.args[0]), cofactor(t.args[1], a, v), cofactor(t.args[2], a, v))


def inst(m, x, i):
  """Instantiates the bound variable of a binder's i-th argument."""
  return subst(m.args[i], {mk('bv', m.args[-1]): x})


def seq(kind, elems):
  return mk('seq', kind, tuple(elems))


def cat(kind, parts):
  out = []
  for p in parts:
    if p.op == 'ite':
      a = p.args[0]
      i = parts.index(p)
      return ITE(
          atom(a), cat(kind, [cofactor(q, a, 1) for q in parts]),
          cat(kind, [cofactor(q, a, 0) for q in parts]))
  for p in parts:
    for q in (p.args[1] if p.op == 'cat' else (p,)):
      if q.op == 'seq':
        if not q.args[1]:
          continue
        if out and out[-1].op == 'seq':
          out[-1] = seq(kind, out[-1].args[1] + q.args[1])
          continue
        q = seq(kind, q.args[1])
      out.append(q)
  if not out:
    return seq(kind, [])
  if len(out) == 1:
    return out[0]
  return mk('cat', kind, tuple(out))


def recat(kind, t):
  """The same sequence with another container type."""
  if t.op == 'ite':
    return ITE(atom(t.args[0]), recat(kind, t.args[1]), recat(kind, t.args[2]))
  if t.op == 'seq':
    return seq(kind, t.args[1])
  if t.op == 'map':
    return mk('map', kind, *t.args[1:])
  if t.op == 'cat':
    return mk('cat', kind, tuple(recat(kind, x) for x in t.args[1]))
  return t


LENGTH = {}  # the lengths of some symbols


def point(x, k):
  """The value at k of an elementwise expression of vectors."""
  if is_scalar(x):
    return x
  if x.op in ('poly', 'psum', 'sum'):
    vs = {y: idx(y, k) for y in to_poly_atoms(x) if not is_scalar(y)}
    return replace(x, vs)
  return idx(x, k)


def to_poly_atoms(x):
  return {a for m in to_poly(x) for a, _ in m}


def mask_at(m, k):
  """Whether a mask holds at k."""
  if m.op == 'veq':
    return eq(point(m.args[0], k), point(m.args[1], k))
  if m.op == 'vlt':
    return lt(point(m.args[0], k), point(m.args[1], k))
  if m.op == 'vnot':
    r = mask_at(m.args[0], k)
    return None if r is None else Not(r)
  if m.op in ('vand', 'vor'):
    r = [mask_at(x, k) for x in m.args]
    return None if None in r else And(*r) if m.op == 'vand' else Or(*r)
  return None


def vlen(x):
  """The length of an elementwise expression."""
  if x.op in ('veq', 'vlt', 'vnot', 'vand', 'vor'):
    for y in x.args:
      if not is_scalar(y):
        return vlen(y)
  if x.op == 'poly':
    for y in sorted(to_poly_atoms(x), key=lambda a: a.id):
      if not is_scalar(y):
        return vlen(y)
  return length(x)


def count_mask(m):
  k = tmp(ty='int')
  g = mask_at(m, k)
  if g is None:
    return None
  return mksum(vlen(m), ITE(g, ONE, ZERO), k)


def as_mask(guard, k, n):
  """The mask that holds where guard(k) does, for a comparison of vectors."""
  ats = atoms_of(guard)
  ps = {a.args[0] for a in ats if a.op in ('lt0', 'eq0')}
  if len(ps) != 1 or any(a.op not in ('lt0', 'eq0') for a in ats):
    return None
  p = ps.pop()
  vec = {}
  for a in to_poly_atoms(p):
    if a.op == 'idx' and a.args[1] is k and k not in a.args[0].fv and \
        is_vector(a.args[0]) and type_of(a.args[0]) == 'arr1' and \
        length(a.args[0]) is n:
      vec[a] = a.args[0]
    elif k in a.fv:
      return None
  if not vec:
    return None
  # scalars on one side, vectors with a leading coefficient 1 on the other
  d = to_poly(p)
  ve = {m: c for m, c in d.items() if any(a in vec for a, _ in m)}
  sc = {m: -c for m, c in d.items() if m not in ve}
  lead = ve[sorted(ve, key=_mkey)[0]]
  v = replace(from_poly({m: c / lead for m, c in ve.items()}), vec)
  w = from_poly({m: c / lead for m, c in sc.items()})
  for m in (eq(w, v), lt(v, w), lt(w, v)):
    if m.op not in ('veq', 'vlt'):
      continue
    g = mask_at(m, k)
    if g is guard:
      return m
    if Not(g) is guard:
      return bmap(m, Not)
  return None


def masked(t):
  """Filtered rows of an array as a selection with a mask, if they are that."""
  if t.op == 'map' and t.args[2] is not TRUE:
    k = tmp(ty='int')
    b = inst(t, k, 3)
    if b.op == 'idx' and b.args[1] is k and k not in b.args[0].fv and \
        length(b.args[0]) is t.args[1]:
      m = as_mask(inst(t, k, 2), k, t.args[1])
      if m is not None:
        return idx(b.args[0], m)
  return t


MASKS = ('veq', 'vlt', 'vnot', 'vand', 'vor')


def _length(t):
  if t in LENGTH:
    return LENGTH[t]
  if t.op == 'seq':
    return num(len(t.args[1]))
  if t.op == 'str':
    return num(len(t.args[0]))
  if t.op == 'map':
    k = tmp()
    return mksum(t.args[1], ITE(inst(t, k, 2), ONE, ZERO), k)
  if t.op == 'cat':
    r = ZERO
    for p in t.args[1]:
      r = add(r, length(p))
    return r
  if t.op == 'app' and t.args[0] in ('permuted', 'sorted', 'reversed', 'keepdims'):
    return length(t.args[1][0])
  if t.op == 'hcat':
    return length(t.args[0][0])
  if t.op == 'poly':
    hs = {a for m, _ in t.args[0] for a, _ in m if not is_scalar(a)}
    if hs and all(h.op == 'hcat' for h in hs):
      ns = {length(h) for h in hs}
      if len(ns) == 1:
        return ns.pop()
  if is_full(t) or t.op == 'app' and t.args[0] == 'empty':
    n = t.args[1][0]
    return n.args[1][0] if n.op == 'seq' and n.args[1] else n
  if t.op in MASKS:
    n = vlen(t)
    if n.op != 'app' or n.args[1][0] is not t:
      return n
  if t.op == 'idx' and t.args[1].op in ('veq', 'vlt', 'vnot'):
    c = count_mask(t.args[1])
    if c is not None:
      return c
  if t.op == 'app' and t.args[0] == 'call:numpy.array_split' and \
      len(t.args[1]) == 2 and is_scalar(t.args[1][1]):
    return t.args[1][1]
  if t.op == 'draw':
    n = dict(t.args[3]).get('size')
    if n is not None and n.op == 'seq' and n.args[1] and is_scalar(n.args[1][0]):
      return n.args[1][0]
    if n is not None and n.op == 'num':
      return n
  return mk('app', 'len', (t,), (), ty='int')


length = lift(_length)


def mksum(n, body, k):
  """sum(body(k) for k in range(n)), linear in the body."""
  if n is ZERO:
    return ZERO
  if n.op == 'num' and n.args[0] <= 64 and n.args[0].denominator == 1:
    r = ZERO
    for i in range(int(n.args[0])):
      r = add(r, subst(body, {k: num(i)}))
    return r
  if n.op == 'ite':
    return ITE(
        atom(n.args[0]), mksum(n.args[1], body, k), mksum(n.args[2], body, k))
  for a in atoms_of(body):
    if k not in a.fv:
      return ITE(
          atom(a), mksum(n, cofactor(body, a, 1), k),
          mksum(n, cofactor(body, a, 0), k))
  if body.op == 'ite':
    body = restrict(body, lt(k, n))
    # split sum(ite(g, x, y)) by the distinct leaves, pulling out coefficients
    lv = {}
    for g, v in leaves(body):
      lv[v] = Or(lv.get(v, FALSE), g)
    r = ZERO
    for v, g in sorted(lv.items(), key=lambda x: x[0].id):
      r = add(r, _sum_guarded(n, g, v, k))
    return r
  return _sum_guarded(n, TRUE, body, k)


def _sum_guarded(n, g, v, k):
  r = ZERO
  if k not in v.fv:
    c = _count_members(n, g, k)
    if c is not None:
      return mul(v, c)
  for m, c in to_poly(v).items():
    out = [(a, e) for a, e in m if k not in a.fv]
    inn = [(a, e) for a, e in m if k in a.fv]
    coef = from_poly({tuple(out): c})
    if not inn and g is TRUE:
      s = n
    elif not inn:
      h, (b,) = close(k, ITE(g, ONE, ZERO))
      s = mk('sum', n, b, h, ty='num')
    else:
      h, (b,) = close(k, ITE(g, from_poly({tuple(inn): Fraction(1)}), ZERO))
      s = mk('sum', n, b, h, ty='num')
    r = add(r, mul(coef, s))
  return r


def _count_members(n, g, k):
  """The number of k<n with base[k] (not) in a sub-collection of base."""
  ats = [a for a in atoms_of(g)]
  if len(ats) != 1 or ats[0].op != 'in' or g not in (atom(ats[0]),
                                                     Not(atom(ats[0]))):
    return None
  x, s = ats[0].args
  if x.op != 'idx' or x.args[1] is not k or k in x.args[0].fv or k in s.fv:
    return None
  base = x.args[0]
  if length(base) is not n or not distinct(base) or not distinct(s):
    return None
  b = s
  while b is not None and b is not base:
    b = SUBSEQ.get(b)
  if b is None:
    return None
  return length(s) if g is atom(ats[0]) else sub(n, length(s))


def intlike(x):
  """Whether x is an integer (an index, a length or a count)."""
  if x.op in ('tmp', 'bv'):
    return True
  if x.op == 'num':
    return x.args[0].denominator == 1
  if x.op == 'poly':
    return all(c.denominator == 1 and all(
        e == 1 and intlike(a) for a, e in m) for m, c in x.args[0])
  return x.ty == 'int' or x.op == 'app' and x.args[0] in (
      'len', 'argmin', 'argmax', 'floor', 'ceil')


def in_range(x, n):
  lo = TRUE if x.op in ('tmp', 'bv') or x.op == 'app' and x.args[0] in (
      'len', 'argmin', 'argmax') else ge(x, ZERO)
  return And(lo, lt(x, n))


def _pinned(body, k):
  """The only value of k for which body can hold, if it says so."""
  for a in atoms_of(body):
    if a.op != 'eq0' or k not in a.fv:
      continue
    p = to_poly(a.args[0])
    km = ((k, Fraction(1)),)
    c = p.get(km)
    if c is None or any(k in x.fv for m in p if m != km for x, _ in m):
      continue
    x = from_poly({m: -y / c for m, y in p.items() if m != km})
    if intlike(x) and entails(body, eq(k, x)):
      return x
  return None


def mkany(n, body, k):
  """any(body(k) for k in range(n)) for a boolean body."""
  if body.op == 'ite':
    body = restrict(body, lt(k, n))
  if n is ZERO or body is FALSE:
    return FALSE
  if n.op == 'num' and n.args[0] <= 64:
    return Or(*[subst(body, {k: num(i)}) for i in range(int(n.args[0]))])
  if n.op == 'ite':
    return ITE(
        atom(n.args[0]), mkany(n.args[1], body, k), mkany(n.args[2], body, k))
  for a in atoms_of(body):
    if k not in a.fv:
      return ITE(
          atom(a), mkany(n, cofactor(body, a, 1), k),
          mkany(n, cofactor(body, a, 0), k))
  if body is TRUE:
    return Not(eq(n, ZERO))
  if body is FALSE:
    return FALSE
  x = _pinned(body, k)
  if x is not None:
    return And(in_range(x, n), subst(body, {k: x}))
  # any(a or b) = any(a) or any(b)
  ats = atoms_of(body)
  if 1 < len(ats) <= 6:
    for a in sorted(ats, key=lambda a: a.id):
      if a.op in ('lt0', 'eq0') and any(
          b is not a and b.op in ('lt0', 'eq0') and b.args[0] is a.args[0]
          for b in ats):
        continue
      hi, lo = cofactor(body, a, 1), cofactor(body, a, 0)
      if hi is TRUE and lo is not FALSE:
        return Or(mkany(n, atom(a), k), mkany(n, lo, k))
      if lo is TRUE and hi is not FALSE:
        return Or(mkany(n, Not(atom(a)), k), mkany(n, hi, k))
  h, (b,) = close(k, body)
  return atom(mk('any', n, b, h))


def mkall(n, body, k):
  return Not(mkany(n, Not(body), k))


def _idx(s, i):
  if s is BOTTOM:
    return BOTTOM
  if is_full(s) and is_scalar(i):
    n = s.args[1][0]
    if n.op == 'seq' and len(n.args[1]) == 2:
      return mk('app', 'full', (n.args[1][1],) + s.args[1][1:], s.args[2], ty='arr1')
    if n.op != 'seq':
      return s.args[1][1]
  if i.op == 'seq' and i.args[0] == 'tuple':  # multi-axis index
    return idx_multi(s, i)
  if i.op == 'slice':
    return idx_slice(s, i)
  if i is ELLIPSIS:
    return s
  if i.op == 'app' and i.args[0] == 'nonzero' and is_mask(i.args[1][0]):
    return idx(s, i.args[1][0])
  if i.op in ('map', 'seq') :  # a mask, or integer indices
    return idx_fancy(s, i)
  if s.op == 'seq':
    if i.op == 'num' and i.args[0].denominator == 1:
      j = int(i.args[0])
      if -len(s.args[1]) <= j < len(s.args[1]):
        return s.args[1][j]
      return BOTTOM
    # symbolic position in a short explicit sequence
    if len(s.args[1]) == 1:
      return s.args[1][0]
  if s.op == 'str' and i.op == 'num':
    return string(s.args[0][int(i.args[0])])
  if s.op in MASKS and is_scalar(i) and not is_bool(i) and all(
      type_of(x) == 'arr1' or is_scalar(x) or x.op in MASKS for x in s.args):
    r = mask_at(s, i)
    if r is not None:
      return r
  if s.op == 'map' and s.args[2] is TRUE:
    if i.op == 'num' and i.args[0] < 0:
      i = add(s.args[1], i)
    if is_scalar(i) or i.op in ('idx', 'app', 'sym', 'draw'):
      return inst(s, i, 3)
  if s.op == 'cat' and i.op == 'num':
    j = int(i.args[0])
    if j >= 0:
      p = s.args[1][0]
      n = length(p)
      if n.op == 'num':
        if j < n.args[0]:
          return idx(p, i)
        return idx(
            cat(s.args[0], list(s.args[1][1:])), num(j - n.args[0]))
    else:
      p = s.args[1][-1]
      n = length(p)
      if n.op == 'num':
        if -j <= n.args[0]:
          return idx(p, i)
        return idx(
            cat(s.args[0], list(s.args[1][:-1])), num(j + n.args[0]))
  if s.op == 'app' and s.args[0] == 'T' and i.op == 'num' and \
      s.args[1][0].op == 'hcat':
    r = idx_multi(s.args[1][0], mk('seq', 'tuple', (FULL, i)))
    if r.op != 'idx':
      return r
  ty = None
  if is_scalar(i) and s.op == 'app' and s.args[0] == 'dot' and s.args[1][
      0].ty == 'arr2' and s.args[1][1].ty in ('arr1', 'arr2'):
    a, b = s.args[1]
    a = idx(a, i)
    if a.ty == 'arr1' and a.op != 'poly':
      return mk('app', 'dot', (a, b), (), ty='num' if b.ty == 'arr1' else 'arr1')
  if is_scalar(i) and s.op == 'poly':
    r = _row(s, i)
    if r is not None:
      return r
  if s.ty == 'arr2' and is_scalar(i):
    ty = 'arr1'
  if isinstance(s.ty, tuple) and s.ty[0] in ('list', 'tuple', 'array'):
    ty = s.ty[1]
  if (is_mask(i) or type_of(i) == 'arr1') and type_of(s) in ('arr1', 'arr2'):
    ty = type_of(s)
  return mk('idx', s, i, ty=ty or elem_type(s))


def _row(s, i):
  """A row of a sum of products of matrices, vectors and numbers."""
  r = ZERO
  for m, c in to_poly(s).items():
    x = num(c)
    if not any(a.ty == 'arr2' for a, _ in m):
      return None
    for a, e in m:
      if a.ty == 'arr2':
        a = idx(a, i)
      elif not is_scalar(a) and a.ty != 'arr1':
        return None
      x = mul(x, a if e == 1 else power(a, num(e)))
    r = add(r, x)
  return r


def is_mask(i):
  """An array of booleans, used as an index."""
  if i.op == 'draw' and i.args[1] == 'numpy.random.choice':
    a = dict(i.args[3]).get('a')
    return a is not None and a.op == 'seq' and bool(a.args[1]) and all(
        x in (TRUE, FALSE) for x in a.args[1])
  return i.op in ('veq', 'vnot', 'vlt') or is_bool(i) and i not in (TRUE, FALSE)


def elem_type(s):
  if s.op == 'map':
    return type_of(s.args[3])
  if s.op == 'seq' and s.args[1]:
    return type_of(s.args[1][0])
  if s.op == 'cat':
    return elem_type(s.args[1][0])
  if isinstance(s.ty, tuple) and s.ty[0] in ('list', 'tuple', 'array'):
    return s.ty[1]
  return None


def type_of(t):
  if t.ty is not None:
    return t.ty
  if t.op in ('num', 'poly', 'sum', 'inf'):
    return 'num' if is_scalar(t) else None
  if t.op == 'cat' and t.args[1][0].ty in ('arr1', 'arr2'):
    return t.args[1][0].ty
  if t.op in ('seq', 'map', 'cat'):
    return (t.args[0], elem_type(t))
  if t.op == 'ite':
    tys = {type_of(x) for x in leafset(t)}
    return tys.pop() if len(tys) == 1 else None
  return None


idx = lift(_idx)


def idx_slice(s, i):
  lo, hi, st = i.args
  if s.op in ('seq', 'str') and all(x is NONE or x.op == 'num' for x in i.args):
    f = lambda x: None if x is NONE else int(x.args[0])
    if s.op == 'str':
      return string(s.args[0][f(lo):f(hi):f(st)])
    return seq(s.args[0], s.args[1][f(lo):f(hi):f(st)])
  if st is NONE and lo is ZERO and hi is NONE:
    return s
  if s.op == 'map' and s.args[2] is TRUE and st is NONE and hi is NONE and \
      lo.op == 'num' and lo.args[0] >= 0:
    k = tmp()
    return mkmap(s.args[0], sub(s.args[1], lo), TRUE, inst(s, add(k, lo), 3), k)
  if s.op == 'cat' and st is NONE and hi is NONE and lo.op == 'num' and \
      lo.args[0] >= 0:
    p = s.args[1][0]
    if p.op == 'seq' and len(p.args[1]) >= lo.args[0]:
      return cat(s.args[0], [seq(s.args[0], p.args[1][int(lo.args[0]):])] +
                 list(s.args[1][1:]))
  return mk('idx', s, i, ty=s.ty)


def mkslice(lo, hi, st):
  if lo is NONE and (st is NONE or st is ONE):
    lo = ZERO
  if st is ONE:
    st = NONE
  return mk('slice', lo, hi, st)


FULL = mkslice(NONE, NONE, NONE)


def idx_multi(s, i):
  parts = list(i.args[1])
  if len(parts) == 1:
    return idx(s, parts[0])
  if len(parts) == 2 and parts[0] is ELLIPSIS:
    parts[0] = FULL
  if len(parts) == 2 and parts[1] is ELLIPSIS:
    return idx(s, parts[0])
  if len(parts) == 2 and parts[1] is FULL:
    return idx(s, parts[0])
  if len(parts) == 2 and parts[0] is FULL:
    j = parts[1]
    if is_full(s) and is_scalar(j) and s.args[1][0].op == 'seq' and len(
        s.args[1][0].args[1]) == 2:
      return mk('app', 'full', (s.args[1][0].args[1][0],) + s.args[1][1:],
                s.args[2], ty='arr1')
    if s.op == 'hcat' and j.op == 'num':
      j = int(j.args[0])
      blocks = s.args[0]
      if j < 0:
        j += len(blocks)
      if 0 <= j < len(blocks) and not any(
          wide(b) for b in (blocks[:j + 1])):
        return blocks[j]
  if len(parts) == 2 and parts[0].op == 'num' and parts[1].op == 'num' and s.op in (
      'seq', 'map', 'cat'):
    return idx(idx(s, parts[0]), parts[1])
  return mk('idx', s, mk('seq', 'tuple', tuple(parts)))


def wide(b):
  return b.ty == 'arr2'


def idx_fancy(s, i):
  """Indexing with an array of booleans or of integers."""
  if i.op == 'seq':
    els = i.args[1]
    if els and all(is_bool(e) for e in els):
      if s.op == 'seq' and len(s.args[1]) == len(els):
        r = seq(s.args[0], [])
        for e, x in zip(els, s.args[1]):
          r = ITE(e, cat(s.args[0], [r, seq(s.args[0], [x])]), r)
        return r
      if all(e in (TRUE, FALSE) for e in els):
        return seq('array', [idx(s, num(j)) for j, e in enumerate(els) if e is TRUE])
      return mk('idx', s, i)
    if els and s.op in ('seq', 'map'):
      return seq('array', [idx(s, e) for e in els])
    return mk('idx', s, i)
  k = tmp()
  g, b = inst(i, k, 2), inst(i, k, 3)
  if is_bool(b) and g is TRUE:
    return mkmap('array', i.args[1], truth(b), idx(s, k), k)
  if s.op == 'map' and s.args[2] is TRUE:
    return mkmap('array', i.args[1], g, idx(s, b), k)
  return mk('idx', s, i)


# ---------------------------------------------------------------- applications


def app(f, *args, ty=None, **kw):
  """An operation on values; distributes over conditionals."""
  names = tuple(sorted(kw))
  return _app(f, names, ty, *(list(args) + [kw[k] for k in names]))


@lift
def _app(f, names, ty, *args):
  pos = args[:len(args) - len(names)]
  kws = tuple(zip(names, args[len(pos):]))
  r = simplify_app(f, pos, dict(kws))
  if r is not None:
    return r
  return mk('app', f, tuple(pos), kws, ty=ty)


SIMPLIFY = {}


def setitem(c, i, v):
  """The sequence c with the element at i replaced."""
  if c.op == 'ite':
    return ITE(atom(c.args[0]), setitem(c.args[1], i, v),
               setitem(c.args[2], i, v))
  if i.op == 'num' and i.args[0].denominator == 1:
    j = int(i.args[0])
    if is_full(c) and c.args[1][0].op == 'num' and abs(j) < c.args[1][0].args[
        0] <= 16 and is_scalar(c.args[1][1]):
      c = seq('array', [c.args[1][1]] * int(c.args[1][0].args[0]))
    if c.op == 'seq' and -len(c.args[1]) <= j < len(c.args[1]):
      x = list(c.args[1])
      x[j] = v
      return seq(c.args[0], x)
    if c.op == 'cat':
      ps = list(c.args[1])
      p = ps[-1] if j < 0 else ps[0]
      if p.op == 'seq' and -len(p.args[1]) <= j < len(p.args[1]):
        x = list(p.args[1])
        x[j] = v
        ps[-1 if j < 0 else 0] = seq(p.args[0], x)
        return cat(c.args[0], ps)
      if p.op == 'map' and j == -1 and p.args[2] is TRUE:
        k = tmp()
        m = mkmap(p.args[0], sub(p.args[1], ONE), TRUE, inst(p, k, 3), k)
        return cat(c.args[0], ps[:-1] + [m, seq(p.args[0], [v])])
  if c.op == 'map' and c.args[2] is TRUE and is_scalar(i) and i.op != 'num':
    k = tmp('k', ty='int')
    return mkmap(c.args[0], c.args[1], TRUE, ITE(eq(k, i), v, inst(c, k, 3)), k)
  return mk('app', 'setitem', (c, i, v), (), ty=c.ty)


def _simp_round(which, other, f):

  def h(pos, kw):
    x, = pos
    if is_vector(x) or not (x.op in ('num', 'poly') or intlike(x)):
      return None
    if intlike(x):
      return x
    if x.op == 'num':
      return num(f(x.args[0]))
    whole, rest = {}, {}
    for m, c in x.args[0]:
      n = from_poly({m: c})
      if c.denominator == 1 and intlike(n):
        whole[m] = c
      elif not m and c >= 1 or not m and c < 0:
        k = Fraction(c.numerator // c.denominator)
        whole[m], rest[m] = k, c - k
      else:
        rest[m] = c
    ms = sorted(((m, c) for m, c in rest.items() if m), key=lambda p: _mkey(p[0]))
    if ms and ms[0][1] < 0:
      r = neg(from_poly(rest))
      return sub(from_poly(whole), app(other, r))
    if whole:
      return add(from_poly(whole), app(which, from_poly(rest)))
    return None

  return h


def _simp_log(pos, kw):
  """The logarithm of a product, of factors that are taken to be positive."""
  x, = pos
  if x is ONE:
    return ZERO
  if x.op != 'poly' or len(x.args[0]) != 1 or is_vector(x):
    return None
  (m, c), = x.args[0]
  if c <= 0 or c == 1 and len(m) == 1 and m[0][1] == 1:
    return None
  out = app('log', num(c.numerator)) if c.numerator > 1 else ZERO
  if c.denominator > 1:
    out = sub(out, app('log', num(c.denominator)))
  for a, e in m:
    out = add(out, mul(num(e), app('log', from_poly({((a, Fraction(1)),): Fraction(1)}))))
  return out


SIMPLIFY['log'] = _simp_log
SIMPLIFY['exp'] = lambda pos, kw: ONE if pos[0] is ZERO and not kw else None
for _w in ('max', 'min'):
  SIMPLIFY[_w + 'imum'] = lambda pos, kw, _w=_w: (
      extremum(_w, pos) if all(is_scalar(p) for p in pos) else None)
SIMPLIFY['floor'] = _simp_round('floor', 'ceil', math.floor)
SIMPLIFY['ceil'] = _simp_round('ceil', 'floor', math.ceil)
SIMPLIFY['setitem'] = lambda pos, kw: setitem(*pos)
SIMPLIFY['dedup'] = lambda pos, kw: dedup(*pos)


def simplify_app(f, pos, kw):
  if any(p is BOTTOM for p in pos):
    return BOTTOM
  h = SIMPLIFY.get(f)
  return h(pos, kw) if h else None


def _simp_minmax(which):

  def h(pos, kw):
    s, = pos
    if is_full(s):  # of at least one entry: otherwise this raises
      return s.args[1][1]
    if s.op == 'seq':
      if not s.args[1]:
        return BOTTOM
      return extremum(which, list(s.args[1]))
    if s.op == 'cat':
      if all(p.op in ('seq', 'map') for p in s.args[1]):
        vs = []
        for p in s.args[1]:
          vs += list(p.args[1]) if p.op == 'seq' else [app(which, p)]
        return extremum(which, vs)
    if s.op == 'map' and s.args[0] != 'list':
      return app(which, recat('list', s))
    return None

  return h


SIMPLIFY['min'] = _simp_minmax('min')
SIMPLIFY['max'] = _simp_minmax('max')


def extremum(which, vals):
  """min/max of several scalars."""

  @lift
  def go(*vs):
    flat = []
    for v in vs:
      flat += list(v.args[0]) if v.op == which + '2' else [v]
    best = None
    rest = []
    for v in flat:
      if v.op in ('num', 'inf') or v is neg(INF):
        x = float('inf') if v is INF else (float('-inf') if v.op == 'poly' else
                                           v.args[0])
        if best is None or (x < best[0] if which == 'min' else x > best[0]):
          best = (x, v)
      elif v not in rest:
        rest.append(v)
    if best is not None:
      lim = INF if which == 'min' else neg(INF)
      if not (best[1] is lim and rest):
        rest.append(best[1])
    if len(rest) == 1:
      return rest[0]
    return mk(which + '2', tuple(sorted(rest, key=lambda t: t.id)))

  return go(*vals)


def _simp_clip(pos, kw):
  if len(pos) == 3:
    x, a, b = pos
    if x.op == 'num' and a.op == 'num' and b.op == 'num':
      return num(min(max(x.args[0], a.args[0]), b.args[0]))
  return None


SIMPLIFY['clip'] = _simp_clip


def mean(x):
  """The average, linear in its argument and with scalars pulled out."""

  @lift
  def go(x):
    if is_scalar(x):
      return x
    if x.op in ('map', 'seq', 'cat'):
      return div(total(x), length(x))
    r = ZERO
    for m, c in to_poly(x).items():
      out = tuple((a, e) for a, e in m if is_scalar(a))
      inn = tuple((a, e) for a, e in m if not is_scalar(a))
      coef = from_poly({out: c})
      r = add(
          r,
          mul(coef,
              mk('app', 'mean',
                 (from_poly({inn: Fraction(1)}),), (), ty='num')) if inn else
          coef)
    return r

  return go(x)


def total(x):

  @lift
  def go(x):
    if x.op == 'map':
      k = tmp()
      return mksum(x.args[1], ITE(inst(x, k, 2), inst(x, k, 3), ZERO), k)
    if x.op == 'seq':
      r = ZERO
      for e in x.args[1]:
        r = add(r, e)
      return r
    if x.op == 'cat':
      r = ZERO
      for e in x.args[1]:
        r = add(r, total(e))
      return r
    if is_scalar(x):
      return x
    if x.op in ('veq', 'vlt', 'vnot', 'vand', 'vor'):
      c = count_mask(x)
      if c is not None:
        return c
    r = ZERO
    for m, c in to_poly(x).items():
      out = tuple((a, e) for a, e in m if is_scalar(a))
      inn = tuple((a, e) for a, e in m if not is_scalar(a))
      if not inn:
        return mk('app', 'sumall', (x,), (), ty='num')
      coef = from_poly({out: c})
      r = add(
          r,
          mul(coef,
              mk('app', 'sumall', (from_poly({inn: Fraction(1)}),), (),
                 ty='num')))
    return r

  return go(x)


def var(x):
  m = mean(x)
  return sub(mean(mul(x, x)), mul(m, m))


def _member(x, s):
  """x in s."""
  e = elem_type(s)
  if is_cls(x.ty) and is_cls(e) and not (
      x.ty[1].is_subclass(e[1]) or e[1].is_subclass(x.ty[1])):
    return FALSE
  if s.op == 'seq':
    return Or(*[eq(x, e) for e in s.args[1]])
  if s.op == 'cat':
    return Or(*[member(x, p) for p in s.args[1]])
  if s.op == 'map':
    # x == base[j] for a filtered base sequence of distinct elements
    k = tmp()
    g, b = inst(s, k, 2), inst(s, k, 3)
    if b is k:
      return And(in_range(x, s.args[1]), subst(g, {k: x})) if intlike(x) else \
          atom(mk('in', x, s))
    if b.op == 'idx' and b.args[1] is k and x.op == 'idx' and x.args[
        0] is b.args[0] and distinct(b.args[0]) and k not in b.args[0].fv:
      j = x.args[1]
      return And(in_range(j, s.args[1]), subst(g, {k: j}))
    if b.op == 'idx' and b.args[1] is k and length(b.args[0]) is s.args[1]:
      base = b.args[0]
      a = tmp('a')
      gg = replace(g, {b: a})
      if k not in gg.fv:
        return And(member(x, base), subst(gg, {a: x}))
    return mkany(s.args[1], And(g, eq(x, b)), k)
  if x.op == 'idx':
    b = x.args[0]
    while b is not None:
      if b is s:
        return TRUE
      b = SUBSEQ.get(b)
  return atom(mk('in', x, s))


member = lift(_member)

# -------------------------------------------------------------------- families
# A family is a function from keys to values: the contents of a dict, or the
# per-object state of the members of a collection.


def famall(f, s, val, a):
  """λx. val(x) if x in s else f(x)."""
  h, (v,) = close(a, val)
  return mk('famall', f, s, v, h)


@lift
def select(f, key):
  if f.op == 'store':
    g, k2, v = f.args
    e = eq(key, k2)
    if e is TRUE:
      return v
    return ITE(e, v, select(g, key)) if e is not FALSE else select(g, key)
  if f.op == 'famall':
    m = member(key, f.args[1])
    v = inst(f, key, 2)
    return ITE(m, v, select(f.args[0], key)) if m is not TRUE else v
  if f.op == 'fambase':
    return mk('sel', f, key, ty=f.ty)
  if f.op == 'famconst':
    return f.args[0]
  if f.op == 'famref':
    return mk('fref', f.args[0], key)
  if f is BOTTOM:
    return BOTTOM
  if f.op == 'fold' and _kept(f, key):
    return select(f.args[1][0], key)
  return mk('sel', f, key)


def _kept(fold, key):
  """Whether no iteration stores anything at a key."""
  head = mk('bv', fold.args[-1], 0, ty=fold.args[3][0])

  def go(f):
    if f is head:
      return True
    if f.op == 'store':
      return eq(key, f.args[1]) is FALSE and go(f.args[0])
    if f.op == 'ite':
      return go(f.args[1]) and go(f.args[2])
    return False

  return go(fold.args[2][0])


@lift
def _read_attr(s, v, name, ty):
  while s.op == 'app' and s.args[0].startswith('upd:set:'):
    if s.args[0] == 'upd:set:' + name.args[0]:
      return s.args[1][1]
    s = s.args[1][0]
    if s.op == 'ite':
      return _read_attr(s, v, name, ty)
  return mk('app', 'get:' + name.args[0], (v, s), (),
            ty=None if ty is NONE else ty.args[0])


def read_attr(v, s, name, ty=None):
  """An attribute of an object of which only the history is known."""
  return _read_attr(s, v, string(name), NONE if ty is None else mk('tyname', ty))


def store(f, key, v):
  if f.op == 'store' and f.args[1] is key:
    f = f.args[0]
  if v is select(f, key):
    return f
  return mk('store', f, key, v)


# ---------------------------------------------------------------- substitution


def subst(t, m, memo=None):
  """Replaces symbols, temporaries or bound variables and renormalises."""
  if not t.fv or not any(k in t.fv for k in m):
    return t
  if t in m:
    return m[t]
  if memo is None:
    memo = {}
  r = memo.get(t.id)
  if r is not None:
    return r
  r = _rebuild(t, lambda x: subst(x, m, memo))
  memo[t.id] = r
  return r


def replace(t, m, memo=None):
  """Replaces arbitrary subterms."""
  if memo is None:
    memo = {}
  if t in m:
    return m[t]
  r = memo.get(t.id)
  if r is not None:
    return r
  r = _rebuild(t, lambda x: replace(x, m, memo))
  memo[t.id] = r
  return r


def within(t, g, memo=None):
  """t with every conditional inside it simplified for the condition g."""
  if memo is None:
    memo = {}
  r = memo.get(t.id)
  if r is None:
    u = restrict(t, g) if t.op == 'ite' else t
    r = memo[t.id] = _rebuild(u, lambda x: within(x, g, memo))
  return r


_occ = {}


def occurs(a, t):
  """Whether the atom a decides some conditional inside t."""
  return a in atoms_within(t)


def atoms_within(t):
  r = _occ.get(t.id)
  if r is not None:
    return r
  out = set()
  st, seen = [t], set()
  while st:
    x = st.pop()
    if x.id in seen:
      continue
    seen.add(x.id)
    if x.op == 'ite':
      out.add(x.args[0])
    st.extend(_flat(x.args))
  r = frozenset(out)
  _occ[t.id] = r
  return r


def assume(t, a, v, memo=None):
  """The value of t, conditionals at every depth decided for the atom a."""
  if memo is None:
    memo = {}
  if not occurs(a, t):
    return t
  r = memo.get(t.id)
  if r is not None:
    return r
  if t.op == 'ite' and t.args[0] is a:
    r = assume(t.args[1] if v else t.args[2], a, v, memo)
  else:
    r = _rebuild(t, lambda x: assume(x, a, v, memo))
  memo[t.id] = r
  return r


def _rebuild(t, f):
  op, args = t.op, t.args
  if op in ('sym', 'tmp', 'bv', 'num', 'str', 'true', 'false', 'none', 'inf',
            'nan', 'pi', 'enum', 'class', 'func', 'lost', 'bottom', 'ref',
            'ellipsis', 'mod'):
    return t
  if op == 'ite':
    return ITE(rebuild_atom(args[0], f), f(args[1]), f(args[2]))
  if op in ('lt0', 'eq0', 'truth', 'same', 'in', 'any', 'batom'):
    return rebuild_atom(t, f)
  if op == 'poly':
    r = ZERO
    for m, c in args[0]:
      x = num(c)
      for a, e in m:
        x = mul(x, power(f(a), num(e)))
      r = add(r, x)
    return r
  if op == 'psum':
    r = ZERO
    for m, c in args[0]:
      x = num(c)
      for a, e in m:
        x = mul(x, power(f(a), num(e)))
      r = add(r, x)
    return r
  if op == 'abs':
    return absval(f(args[0]))
  if op == 'fold':
    h = args[-1]
    k = tmp(ty='int')
    hs = [tmp(ty=y) for y in args[3]]
    m = {mk('bv', h): k}
    for p, x in enumerate(hs):
      m[mk('bv', h, p)] = x
    return mkfold(f(args[0]), [f(x) for x in args[1]],
                  [f(subst(x, m)) for x in args[2]], hs, k, 0)
  if op in BINDERS:
    k = tmp()
    o = lambda i: f(inst(t, k, i))
    if op == 'map':
      return mkmap(args[0], f(args[1]), o(2), o(3), k)
    if op == 'sum':
      return mksum(f(args[0]), o(1), k)
    if op == 'any':
      return mkany(f(args[0]), o(1), k)
    if op == 'famall':
      return famall(f(args[0]), f(args[1]), o(2), k)
  if op == 'seq':
    return seq(args[0], [f(x) for x in args[1]])
  if op == 'cat':
    return cat(args[0], [f(x) for x in args[1]])
  if op == 'idx':
    return idx(f(args[0]), f(args[1]))
  if op == 'slice':
    return mkslice(*[f(x) for x in args])
  if op == 'app':
    if args[0] == 'len':
      return length(f(args[1][0]))
    if args[0] == 'mean':
      return mean(f(args[1][0]))
    if args[0] == 'sumall':
      return total(f(args[1][0]))
    return app(args[0], *[f(x) for x in args[1]], ty=t.ty,
               **{k: f(v) for k, v in args[2]})
  if op in ('min2', 'max2'):
    return extremum(op[:3], [f(x) for x in args[0]])
  if op == 'store':
    return store(f(args[0]), f(args[1]), f(args[2]))
  if op == 'sel':
    return select(f(args[0]), f(args[1]))
  if op == 'strcat':
    r = string('')
    for x in args[0]:
      r = add(r, f(x))
    return r
  if op == 'vnot':
    return bmap(f(args[0]), Not)
  if op == 'veq':
    return eq(f(args[0]), f(args[1]))
  if op == 'vlt':
    return lt(f(args[0]), f(args[1]))
  # generic constructor
  g = lambda a: f(a) if isinstance(a, T) else (
      tuple(g(x) for x in a) if isinstance(a, tuple) else a)
  return mk(op, *[g(a) for a in args], ty=t.ty)


def rebuild_atom(a, f):
  op = a.op
  if op == 'lt0':
    return lt(f(a.args[0]), ZERO)
  if op == 'eq0':
    p = f(a.args[0])
    if p.op == 'ite':
      return lift(lambda q: rebuild_atom(mk('eq0', q), lambda x: x))(p)
    s, q = _norm_diff(p, ZERO)
    if q is None:
      return boolean(s == 0)
    # eq0 is only consulted where lt0 is false
    return ITE(atom(mk('lt0', q)), FALSE, atom(mk('eq0', q)))
  if op == 'truth':
    return truth(f(a.args[0]))
  if op == 'same':
    return same(f(a.args[0]), f(a.args[1]))
  if op == 'in':
    return member(f(a.args[0]), f(a.args[1]))
  if op == 'any':
    k = tmp()
    return mkany(f(a.args[0]), f(inst(a, k, 1)), k)
  g = lambda x: f(x) if isinstance(x, T) else (
      tuple(g(y) for y in x) if isinstance(x, tuple) else x)
  return batom(op, *[g(x) for x in a.args])


def batom(op, *args):
  """An opaque boolean predicate."""
  @lift
  def go(*xs):
    return atom(mk(op, *xs))
  if all(isinstance(x, T) for x in args):
    return go(*args)
  return atom(mk(op, *args))


def subterms(t):
  seen, st = set(), [t]
  while st:
    x = st.pop()
    if x.id in seen:
      continue
    seen.add(x.id)
    yield x
    st.extend(_flat(x.args))


def contains(a, x, memo={}):
  """Whether a is a subterm of x."""
  k = (a.id, x.id)
  if k not in memo:
    memo[k] = any(y is a for y in subterms(x))
  return memo[k]


# -------------------------------------------------------------------- printing


def show(t, d=0):
  if d > 14:
    return '…'
  s = lambda x: show(x, d + 1)
  op, a = t.op, t.args
  if op == 'num':
    return str(a[0])
  if op == 'str':
    return repr(a[0])
  if op in ('sym', 'tmp'):
    return str(a[0]) if op == 'sym' else f'{a[1]}{a[0]}'
  if op == 'bv':
    return 'ijklmnopqrst'[a[0] % 12]
  if op in ('true', 'false', 'none', 'inf', 'nan', 'pi', 'bottom'):
    return op
  if op == 'ite':
    if a[1] is TRUE and a[2] is FALSE:
      return s(a[0])
    if a[1] is FALSE and a[2] is TRUE:
      return f'¬{s(a[0])}'
    return f'({s(a[0])} ? {s(a[1])} : {s(a[2])})'
  if op in ('poly', 'psum'):
    out = []
    for m, c in a[0]:
      x = '·'.join(s(b) + ('' if e == 1 else f'^{e}') for b, e in m)
      out.append(x if c == 1 and m else (f'{c}·{x}' if m else str(c)))
    return '(' + ' + '.join(out) + ')'
  if op == 'lt0':
    return f'[{s(a[0])}<0]'
  if op == 'eq0':
    return f'[{s(a[0])}==0]'
  if op == 'seq':
    o, c = {'list': '[]', 'tuple': '()'}.get(a[0], ('⟨', '⟩'))
    return o + ', '.join(s(x) for x in a[1]) + c
  if op == 'map':
    v = 'ijklmnopqrst'[a[4] % 12]
    g = '' if a[2] is TRUE else f' if {s(a[2])}'
    return f'[{s(a[3])} for {v}<{s(a[1])}{g}]'
  if op == 'sum':
    return f'Σ({"ijklmnopqrst"[a[2]%12]}<{s(a[0])}: {s(a[1])})'
  if op == 'any':
    return f'any({"ijklmnopqrst"[a[2]%12]}<{s(a[0])}: {s(a[1])})'
  if op == 'cat':
    return '{' + ' ++ '.join(s(x) for x in a[1]) + '}'
  if op == 'idx':
    return f'{s(a[0])}[{s(a[1])}]'
  if op == 'slice':
    f = lambda x: '' if x is NONE else s(x)
    return f'{f(a[0])}:{f(a[1])}' + ('' if a[2] is NONE else ':' + f(a[2]))
  if op == 'app':
    return f'{a[0]}(' + ', '.join([s(x) for x in a[1]] +
                                  [f'{k}={s(v)}' for k, v in a[2]]) + ')'
  if op in ('min2', 'max2'):
    return op[:3] + '(' + ', '.join(s(x) for x in a[0]) + ')'
  if op == 'lost':
    return f'LOST<{a[0]}>'
  g = lambda x: s(x) if isinstance(x, T) else (
      '(' + ', '.join(g(y) for y in x) + ')' if isinstance(x, tuple) else str(x))
  return f'{op}(' + ', '.join(g(x) for x in a) + ')'

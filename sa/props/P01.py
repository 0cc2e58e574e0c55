"""Inverse weights are bounded by the overlap."""
from fractions import Fraction

import terms as t
from terms import And
from drive import S
from props.paramlib import scores

M = S('min_overlap', 'num')


def check(rep, prog):
  rep.rule('weight', 'every divisor in a score is a probability, or one minus it, '
           'clipped to the overlap, so at least min_overlap', 20)
  rep.rule('some', 'the score has inverse weights', 5)
  rep.assume('0 < min_overlap <= 1/2')
  for e, f, h, d, q in scores(rep, prog, ['AIPW', 'FrontDoorLinearFiniteZ'], 5,
                              None):
    seen = []
    for g, l in t.leaves(t.ITE(And(h.pc, e.enough(f, d)), h.result, t.BOTTOM)):
      for x in divisors(l):
        if x not in seen:
          seen.append(x)
    rep.check('some', h.at, seen, 'no inverse weights')
    for x in seen:
      r = bounds(x)
      w = f'{h.at} [{t.show(x)[:120]}]'
      if r is None:
        (rep.unsure if x.lost else rep.bad)(
            'weight', w, f'no lower bound for the divisor {t.show(x)[:400]}')
        continue
      rep.check('weight', w, all(v >= m for v, m in r[0]),
                f'the divisor is not bounded from below by the overlap')


def divisors(l):
  """The bases of the negative powers in an arithmetic term."""
  out = []
  for s in t.subterms(l):
    if s.op == 'app' and s.args[0].startswith('upd:'):
      continue
    ms = s.args[0] if s.op in ('poly', 'psum') else ()
    for m, _ in ms:
      for a, e in m:
        if e < 0 and a not in out:
          out.append(a)
  return out


# a bound is a list of (value, m), at the two ends of the range of the overlap
ENDS = [(Fraction(1, 1000), Fraction(1, 1000)), (Fraction(1, 2), Fraction(1, 2))]


def at(p, m):
  """A polynomial in the overlap at m, or None."""
  r = Fraction(0)
  for k, c in t.to_poly(p).items():
    for a, e in k:
      if a is not M or e.denominator != 1:
        return None
      c *= m ** int(e)
    r += c
  return r


def bounds(x):
  """(lower, upper) bounds at the two ends of the range of the overlap."""
  if x.op == 'ite':
    rs = [bounds(y) for y in t.leafset(x)]
    if None in rs:
      return None
    return ([(min(r[0][i][0] for r in rs), rs[0][0][i][1]) for i in (0, 1)],
            [(max(r[1][i][0] for r in rs), rs[0][1][i][1]) for i in (0, 1)])
  p = [(at(x, m), m) for m, _ in ENDS]
  if None not in [v for v, _ in p]:
    return p, p
  if x.op == 'app' and x.args[0] == 'clip':
    lo, hi = (bounds(y) for y in x.args[1][1:3])
    if lo is None or hi is None:
      return None
    return ([(min(a, b), m) for (a, m), (b, _) in zip(lo[0], hi[0])], hi[1])
  if x.op in ('min2', 'max2'):
    pick = min if x.op == 'min2' else max
    rs = [bounds(y) for y in x.args[0]]
    known = [r for r in rs if r is not None]
    if not known:
      return None
    inf = float('inf')
    low = [(pick(r[0][i][0] if r else -inf for r in rs), known[0][0][i][1])
           for i in (0, 1)]
    high = [(pick(r[1][i][0] if r else inf for r in rs), known[0][0][i][1])
            for i in (0, 1)]
    return low, high
  if x.op in ('poly', 'psum'):
    low = [Fraction(0)] * 2
    high = [Fraction(0)] * 2
    for m, c in x.args[0]:
      if not m:
        r = ([(Fraction(1), 0)] * 2,) * 2
      elif len(m) == 1 and m[0][1] == 1:
        r = bounds(m[0][0])
      else:
        r = bounds(t.from_poly({m: Fraction(1)})) if all(
            a is M for a, _ in m) else None
      if r is None:
        return None
      for i in (0, 1):
        a, b = c * r[0][i][0], c * r[1][i][0]
        low[i] += min(a, b)
        high[i] += max(a, b)
    return ([(low[i], ENDS[i][0]) for i in (0, 1)],
            [(high[i], ENDS[i][0]) for i in (0, 1)])
  return None

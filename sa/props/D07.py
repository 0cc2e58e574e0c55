"""The rows of a fitted TabularCPD are smoothed frequencies that sum to one."""
import itertools
from fractions import Fraction

import terms as t
from terms import Not
from drive import Ctx, S
from program import AnalysisError

W = 'data.TabularCPD.fit'
XS = [S(f'x_value{i}') for i in range(40)]
RATIO = S('ratio', 'num')
ZS = [S(f'z_value{i}') for i in range(130)]


def check(rep, prog):
  rep.rule('sum', 'the probabilities of the seen z sum to one for every seen x', 100)
  rep.rule('least', 'no probability is less than one over the size of the support '
           'and the given ratio', 100)
  rep.rule('kept', 'frequencies that are all large enough are the probabilities', 50)
  rep.rule('order', 'a value that was seen more often does not get less probability',
           100)
  rep.rule('marginal', 'the marginal of a value is its frequency', 100)
  rep.rule('unordered', 'the order of the units does not matter', 50)
  rep.assume('The ratio is at least one and the values have different bytes.')
  t.APART.update(XS + ZS)
  t.APART.update(t.app('tobytes', v) for v in XS + ZS)
  seen = set()
  for n in range(1, rep.depth(5, 7) + 1):
    for pairs in itertools.combinations_with_replacement(
        list(itertools.product(range(2 if n < 6 else 3), range(3 if n < 5 else 4))), n):
      if canonical(pairs) in seen:
        continue
      seen.add(canonical(pairs))
      one(rep, prog, pairs)
  # large tables: many values of z, many of x, many units of one kind
  for n, nx, nz in ((150, 2, 130), (160, 40, 3), (400, 2, 2)):
    one(rep, prog, tuple((i * i % 11 % nx if nx < 11 else i % nx, i * i % 101 % nz
                          if nz < 101 else i % nz) for i in range(n)), False)


def canonical(pairs):
  xs, zs = (sorted(set(p[i] for p in pairs)) for i in (0, 1))
  return min(tuple(tuple(pairs.count((x, z)) for z in q) for x in p)
             for p in itertools.permutations(xs) for q in itertools.permutations(zs))


def ratios(pairs, inside):
  """Ratios between, and at, those at which a frequency is as large as the least
  probability."""
  k = len({z for _, z in pairs})
  at = {Fraction(1), Fraction(20)}
  for p in set(pairs):
    m = sum(x == p[0] for x, _ in pairs)
    at.add(Fraction(m, pairs.count(p) * k))
  at = sorted(a for a in at if a >= 1)
  return at + [a + (b - a) * i / (inside + 1) for a, b in zip(at, at[1:])
               for i in range(1, inside + 1)] + [at[-1] * 3]


def fit(rep, prog, pairs, ratio=RATIO):
  """The terms of the probabilities and of the marginals, over the ratio."""
  c = Ctx(prog)
  cpd = c.construct('TabularCPD', min_ratio_to_uniform=ratio)
  c.st.pc = Not(t.lt(ratio, t.ONE))
  c.method(cpd, 'fit', x=t.seq('array', [XS[x] for x, _ in pairs]),
           z=t.seq('array', [ZS[z] for _, z in pairs]))
  if c.st.pc is t.FALSE:
    return None, None
  xs, zs = (sorted(set(p[i] for p in pairs)) for i in (0, 1))
  table = {}
  both = list(itertools.product(xs, zs))
  v = c.pure(c.method(cpd, 'predict', x=t.seq('array', [XS[x] for x, _ in both]),
                      z=t.seq('array', [ZS[z] for _, z in both])))
  table = {p: t.idx(v, t.num(i)) for i, p in enumerate(both)}
  m = c.attr(cpd, 'x_marginal')
  marginal = {x: c.pure(c.I.getitem(c.st, m, t.app('tobytes', XS[x])))
              for x in xs}
  rep.fn(*sorted(c.I.analysed))
  return table, marginal


def at_ratio(terms, ratio):
  return {k: number(t.replace(x, {RATIO: t.num(ratio)})) for k, x in terms.items()}


def number(x):
  """The number that a term is; None for a division by zero."""
  if 'LOST<division by zero>' in t.show(x):
    return None
  if x.op != 'num':
    raise AnalysisError(f'{W}: a probability is {t.show(x)[:200]}')
  return x.args[0]


def one(rep, prog, pairs, small=True):
  xs, zs = (sorted(set(p[i] for p in pairs)) for i in (0, 1))
  counts = {p: pairs.count(p) for p in itertools.product(xs, zs)}
  total = {x: sum(counts[x, z] for z in zs) for x in xs}
  shown = ', '.join(f'x{x}z{z}: {k}' for (x, z), k in counts.items()) if small else \
      f'{len(pairs)} units, {len(xs)} x {len(zs)} values'
  if small:
    terms, marginals = fit(rep, prog, pairs)
    if terms is None:
      rep.bad('sum', f'{W} [{shown}]', 'always raises')
      return
    others, _ = fit(rep, prog, tuple(reversed(pairs)))
  for ratio in ratios(pairs, rep.depth(1, 4)) if small else (
      Fraction(3, 2), Fraction(20)):
    at = f'{W} [{shown}, ratio {ratio}]'
    if not small:
      terms, marginals = fit(rep, prog, pairs, t.num(ratio))
      others, _ = fit(rep, prog, tuple(reversed(pairs)), t.num(ratio))
    table, marginal = at_ratio(terms, ratio), at_ratio(marginals, ratio)
    if None in table.values() or None in marginal.values():
      rep.bad('sum', at, 'a division by zero')
      continue
    least = 1 / (len(zs) * ratio)
    for x in xs:
      row = {z: table[x, z] for z in zs}
      rep.check('sum', at, sum(row.values()) == 1,
                f'row x{x} is {show(row)}, with sum {float(sum(row.values()))}')
      rep.check('least', at, min(row.values()) >= least,
                f'row x{x} is {show(row)}, but the least should be {float(least)}')
      freq = {z: Fraction(counts[x, z], total[x]) for z in zs}
      if min(freq.values()) >= least:
        rep.check('kept', at, row == freq, f'row x{x} is {show(row)} instead of '
                  f'{show(freq)}')
      rep.check('order', at, all(row[a] <= row[b] for a in zs for b in zs
                                 if freq[a] <= freq[b]),
                f'row x{x} is {show(row)} for the frequencies {show(freq)}')
      rep.check('marginal', at, marginal[x] == Fraction(total[x], len(pairs)),
                f'the marginal of x{x} is {float(marginal[x])}')
    rep.check('unordered', at, at_ratio(others, ratio) == table,
              'the probabilities are others when the units are reversed')


def show(row):
  return '{' + ', '.join(f'z{z}: {float(p):.4g}' for z, p in row.items()) + '}'

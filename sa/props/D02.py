"""subsample splits the units at random into two complementary data sets."""
import terms as t
from terms import And, Not
from drive import Ctx, S
from props.datalib import COLS, data_of, same_row_source, variants
from props.funclib import Fn, same_object, snapped


def first_share(key, label, n):
  """The probability that a unit has the label, or None."""
  if key.op == 'draw' and key.args[1] == 'numpy.random.choice':
    a = dict(key.args[3])
    vals, p, size = a.get('a'), a.get('p'), a.get('size')
    if vals is None or p is None or size is None or vals.op != 'seq' or \
        p.op != 'seq' or not t.rat_equal(size, n):
      return None
    if a.get('replace', t.TRUE) is not t.TRUE:
      return None
    out = t.ZERO
    for v, q in zip(vals.args[1], p.args[1]):
      if v is label:
        out = t.add(out, q)
    return out
  if key.op == 'draw' and key.args[1] == 'numpy.random.binomial':
    a = dict(key.args[3])
    one = label in (t.TRUE, t.num(1))
    if a.get('n') is not t.num(1) or not t.rat_equal(a.get('size', t.ZERO), n):
      return None
    p = a.get('p')
    return p if one else t.sub(t.num(1), p)
  if key.op == 'vlt':
    below = key.args[1] is t.ZERO  # d < 0, or else 0 < d
    d = key.args[0] if below else key.args[1]
    us = [z for z in t.subterms(d) if z.op == 'draw' and z.args[1] ==
          'numpy.random.random' and t.rat_equal(
              dict(z.args[3]).get('size', t.ZERO), n)]
    if len(us) != 1:
      return None
    at0 = t.replace(d, {us[0]: t.ZERO})
    slope = t.sub(t.replace(d, {us[0]: t.num(1)}), at0)
    if slope.op != 'num' or not t.rat_equal(d, t.add(at0, t.mul(slope, us[0]))):
      return None
    p = t.div(t.neg(at0), slope)  # the threshold
    if (slope.args[0] > 0) != below:
      p = t.sub(t.num(1), p)
    return p if label is t.TRUE else t.sub(t.num(1), p)
  return None


def check(rep, prog):
  rep.rule('rows', 'the columns of each part are the same rows of the columns '
           'of the data', 12)
  rep.rule('complement', 'a unit is in the first part iff it is not in the '
           'second one', 4)
  rep.rule('share', 'each unit is in the first part with probability p', 4)
  rep.rule('fields', 'the size fields of a part are those of its covariates', 8)
  rep.rule('input', 'subsample does not change the data', 4)
  rep.rule('reject', 'p is rejected iff it is outside [0, 1]', 2)
  where = 'data.ExpData.subsample'
  p = S('p', 'num')
  for lab, kw in variants():
    c = Ctx(prog)
    d = data_of(c, **kw)
    f = Fn(rep, c, where, lab)
    cols = {nm: c.attr(d, nm) for nm in COLS}
    n = c.attr(d, 'n_units')
    f.method(d, 'subsample', p=p)
    same_object(rep, 'input', f.at, c, f.before, c.st, d, f.pc, 'the data')
    f.rejects('reject', 'bad_share', p)
    r = t.restrict(f.result, f.pc)
    keys = []
    rep.equal('rows', f.at, t.length(r), t.num(2), 'the number of parts', f.pc)
    for j in range(2):
      at = f'{f.at} part {j + 1}'
      fs = snapped(t.idx(r, t.num(j)))
      if fs is None:
        rep.unsure('rows', at, f'not a data set: {t.show(r)[:300]}')
        continue
      key = same_row_source(rep, 'rows', at, fs, cols)
      if key is None:
        continue
      keys.append(key)
      rep.equal('fields', at, fs['n_units'], t.length(fs['cov']), 'n_units', f.pc)
      rep.equal('fields', at, fs['n_features'], c.attr(d, 'n_features'),
                'n_features', f.pc)
    if len(keys) < 2:
      continue
    (k1, l1), (k2, l2) = keys
    two = l1 in (t.TRUE, t.FALSE, t.ZERO, t.num(1))
    rep.check('complement', f.at, k1 is k2 and two and (
        l2 is t.Not(l1) if l1 in (t.TRUE, t.FALSE) else t.rat_equal(
            t.add(l1, l2), t.num(1))),
        f'the parts take {t.show(k1)[:200]} = {t.show(l1)} and '
        f'{t.show(k2)[:200]} = {t.show(l2)}')
    s = first_share(k1, l1, n)
    if s is None:
      rep.unsure('share', f.at, f'the units are chosen by {t.show(k1)[:300]}')
    else:
      rep.equal('share', f.at, s, p, 'the probability', f.pc)

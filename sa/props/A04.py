"""A larger tolerance never gives a wider interval, and no interval is inverted."""
import terms as t
from terms import And
from drive import S
from signs import Signs
from props.armlib import LATER, histories, integer, plain

POSITIVE = ('sub_gscale', 'tau_bound', 'burn_in', 'rho', 'eta_sub_gscale')


def check(rep, prog):
  rep.rule('lower', 'the lower end never falls as delta grows', 16)
  rep.rule('upper', 'the upper end never rises as delta grows', 16)
  rep.rule('order', 'the lower end is at most the upper end', 16)
  rep.assume('the roots in the formulas are real, the options are positive, a score '
             'exists for each of at least two held-out units, and the confidence '
             'width of an estimator is not negative and falls in delta')
  for a, i in histories(rep, prog):
    d = S(f'delta{i}', 'num')
    if a.cls.name == 'BootstrapArm' or a.alg is None:
      bootstrap(rep, a, d)
      continue
    n, x, short = plain(a)
    m, v, cs = S('m', 'int'), S('V', 'num'), {n: t.add(S('m', 'int'), t.ONE)}
    two = t.num(2)
    cs[t.mean(t._pow(x, two))] = t.add(v, t._pow(t.mean(x), two))
    pc = And(a.pc(), a.enough())
    sg = Signs({d: (0, 1)}, [v, m, LATER] + [S(o, 'num') for o in POSITIVE],
               {'calculate_cs_width': 2})
    for lo, hi in ends(rep, a, short(a.get('ci')), short(pc)):
      lo, hi = t.replace(lo, cs), t.replace(hi, cs)
      directions(rep, a, sg, lo, hi, d)
      one = {d: t.ONE}
      last = [(l, t.replace(hi, one))
              for l in lower_values(t.replace(lo, one))]
      ok = all(h is t.INF or sg.sign(t.sub(h, l)) in (0, 1) for l, h in last)
      order(rep, a, ok, lo, hi)


def ends(rep, a, ci, pc):
  """The possible (lower, upper) ends."""
  out = []
  for v in sorted(t.leafset(t.restrict(ci, pc)), key=lambda y: y.id):
    if v.op != 'seq' or len(v.args[1]) != 2:
      rep.unsure('order', a.at, f'not a pair: {t.show(v)[:200]}')
      continue
    out += [tuple(v.args[1])]
  return out


def lower_values(lo):
  """Values of which the lower end is one."""
  return [y for x in t.leafset(lo)
          for y in (x.args[0] if x.op == 'max2' else [x])]


def directions(rep, a, sg, lo, hi, d):
  for rule, x, want in (('lower', lo, 1), ('upper', hi, -1)):
    m = sg.mono(x, d)
    if m is None:  # the width of an estimator may be zero
      y = t.replace(x, {w: t.ZERO for w in t.subterms(x) if w.op == 'app' and
                        w.args[0] in sg.falls})
      if t.contains(d, y) and sg.mono(y, d) == -want:
        m = -want
    if m is None and sg.turns(x, d):
      rep.bad(rule, a.at, f'the {rule} end both rises and falls as delta grows: '
              f'{t.show(x)[:300]}')
    elif m is None:
      rep.unsure(rule, a.at, f'the direction is not known of {t.show(x)[:300]}')
    else:
      rep.check(rule, a.at, m * want >= 0, f'the {rule} end '
                f'{"falls" if want > 0 else "rises"} as delta grows: '
                f'{t.show(x)[:300]}')


def order(rep, a, ok, lo, hi):
  if ok:
    rep.ok('order', a.at)
  else:
    rep.unsure('order', a.at, f'{t.show(lo)[:300]} <= {t.show(hi)[:300]} is not known')


def bootstrap(rep, a, d):
  """Order statistics: the positions decide."""
  B, u = S('B', 'int'), S('u', 'num')
  for lo, hi in ends(rep, a, a.get('ci'), a.pc()):
    if lo.op != 'idx' or hi.op != 'idx' or lo.args[0] is not hi.args[0] or lo.args[
        0].op != 'app' or lo.args[0].args[0] != 'sorted':
      rep.unsure('order', a.at, 'the ends are not positions in one sorted list')
      continue
    n = t.length(lo.args[0])
    fixed = not t.contains(d, n)
    sg = Signs({d: (0, 1)}, [n], ordered=[lo.args[0]])
    if fixed:
      directions(rep, a, sg, lo, hi, d)
    i, j = [t.replace(t.replace(integer(x.args[1], sg), {n: B}), {d: t.sub(t.ONE, u)})
            for x in (lo, hi)]
    # delta = 1 - u; u > 0; floor(y) <= y; a whole number above -1 is not negative
    gap = t.add(t.sub(j, i), t.ONE)
    sg = Signs({}, [B, u])
    gap = t.from_poly(t.to_poly(lowest(gap)))
    strict = gap.op == 'poly' and sg.sign(gap) == 1 or gap.op == 'num' and (
        gap.args[0] > 0)
    order(rep, a, strict and t.intlike(t.sub(j, i)), i, j)


def lowest(x):
  """A lower bound, from floor(y) <= y and y <= ceil(y)."""
  out = t.ZERO
  for m, c in t.to_poly(x).items():
    if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'app':
      f, a = m[0][0].args[0], m[0][0].args[1]
      if f == 'floor' and c < 0 or f == 'ceil' and c > 0:
        out = t.add(out, t.mul(t.num(c), a[0]))
        continue
    out = t.add(out, t.from_poly({m: c}))
  return out

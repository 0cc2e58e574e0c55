"""The mechanisms of a Section 5 instance follow its structural equations."""
import terms as t
from terms import mk
from drive import Ctx, S
from props.banditlib import Spec, spec_module
from props.paperlib import SEED, Example, value
from props.scmlib import lit

SECTIONS = ('get_section_5_1_cpds', 'get_section_5_2_cpds')
GP = 'nonlinear_utils.generate_random_nd_function'
N = S('n', 'int')


def check(rep, prog):
  rep.rule('variables', 'there is a mechanism for every variable', 6)
  rep.rule('roots', 'V_i is one normal draw per unit, of its own dimension', 10)
  rep.rule('paths', 'Z_i is a function of V_i only, plus one normal draw per unit of '
           'its own dimension', 10)
  rep.rule('treatment', 'X is one Bernoulli draw per unit, with the sigmoid of a sum '
           'with one term for every V_i', 6)
  rep.rule('response', 'Y is a sum with one term for every Z_j, Z_0 included, plus one '
           'normal draw per unit', 6)
  rep.rule('mediator', 'Z_0 of a unit is one draw from a common support, with the '
           'distribution of its own exposure', 6)
  rep.rule('weights', 'the probabilities of the support of Z_0 are positive and sum '
           'to one', 6)
  rep.rule('own', 'no two terms share their coefficients or function', 6)
  dims = [([2, 1, 3], [0, 2, 1]), ([1, 2], [0, 3]), ([2, 3, 3, 3], [0, 2, 2, 2])]
  if rep.depth(0, 1):
    dims += [([3, 1, 2, 4, 1], [0, 5, 1, 2, 1])]
  for fn in SECTIONS:
    for z_dim, v_dim in dims:
      Mechanisms(rep, prog, fn, z_dim, v_dim).all()


def has(x, s):
  return any(y is s for y in t.subterms(x))


def draws(x, prefix=''):
  return [y for y in t.subterms(x) if y.op == 'draw' and y.args[1].startswith(prefix)]


def chosen(y):
  """The support and the draw of an index into it that make up a unit."""
  if y.op != 'idx':
    return None, None
  base, i = y.args
  if base.op == 'idx' and i is t.ZERO:  # the first of the chosen rows
    base, i = base.args
  while not (i.op == 'draw' and i.args[1] == 'numpy.random.choice'):
    if i.op == 'idx' and i.args[1] is t.ZERO or \
        i.op == 'app' and i.args[0] in ('int', 'flatten', 'astype'):
      i = i.args[0] if i.op == 'idx' else i.args[1][0]
    else:
      return None, None
  return base, i


def normalised(p):
  """p is a vector of positive numbers divided by their sum."""
  if p.op == 'draw':
    return p.args[1].endswith('.dirichlet')
  if p.op == 'app' and p.args[0] == 'call:scipy.special.softmax':
    return True
  q = t.to_poly(p)
  if len(q) != 1:
    return False
  (m, k), = q.items()
  up = [a for a, e in m if e == 1]
  down = [a for a, e in m if e == -1]
  if k != 1 or len(m) != 2 or len(up) != 1 or len(down) != 1:
    return False
  a, b = up[0], down[0]
  if not (a.op == 'app' and a.args[0] == 'exp' or a.op == 'abs'):
    return False
  return b is t.total(a) or b.op == 'app' and b.args[0] in (
      'sum', 'sumaxis') and b.args[1][0] is a


class Mechanisms:

  def __init__(self, rep, prog, fn, z_dim, v_dim):
    self.rep, self.fn = rep, fn
    self.z_dim, self.v_dim, self.m = z_dim, v_dim, len(z_dim) - 1
    self.at = f'paper_utils.{fn} [z_dim={z_dim}, v_dim={v_dim}]'
    e = Example(rep, prog, z_dim, v_dim)
    self.parents = e.parents
    self.made = []
    self.linear = fn == SECTIONS[0]
    c = self.c = Ctx(prog, stubs={GP: self.function})
    _, self.gp = prog.func('nonlinear_utils', 'generate_random_nd_function')
    v = self.cpds = c.func('paper_utils', fn, z_dim=lit(c, z_dim),
                           v_dim=lit(c, v_dim), num_back_door_paths=t.num(self.m),
                           seed=SEED)
    rep.fn(*sorted(c.I.analysed))
    keys = [k.args[0] for k in c.pure(c.I.getc(c.st, v, 'keys')).args[1]]
    rep.check('variables', self.at, sorted(keys) == sorted(self.parents),
              f'the mechanisms are of {sorted(keys)}')
    self.seen = {}
    for p in e.parents:
      t.LENGTH[self.sym(p)] = N

  def sym(self, v):
    return S('sample_' + v, 'arr1' if v in 'XY' else 'arr2')

  def dim(self, v):
    return 1 if v in 'XY' else (self.z_dim if v[0] == 'Z' else self.v_dim)[int(v[1:])]

  def function(self, I, st, args, kw):
    """Stands for a random function: unknown functions of the given dimensions."""
    a = self.gp.args
    kw = {**dict(zip([p.arg for p in a.args], args)), **kw}
    i = len(self.made)
    dim, out = value(kw['dim']), value(kw.get('out_dim', t.ONE))
    fs = [S(f'function{i}_{j}', ('callable', 'arr1')) for j in range(out)]
    for f in fs:
      for v in self.parents:
        x = self.sym(v)
        t.LENGTH[mk('callres', 0, f, (x,), (), (), ty='arr1')] = N
    self.made.append((dim, out, kw.get('seed', t.NONE), fs))
    m = spec_module(I.prog)
    return I.call(st, I.mkfunc(m, m.funcs['nd_function'], None, None),
                  [t.seq('list', fs)], {})

  def sample(self, v, parents=None):
    c = self.c
    f = c.I.getitem(c.st, self.cpds, t.string(v))
    ps = parents or [self.sym(p) for p in self.parents[v]]
    r = c.pure(c.I.call(c.st, f, [N, lit(c, ps)], {}))
    self.rep.fn(*sorted(c.I.analysed))
    return t.restrict(r, c.st.pc)

  def all(self):
    for i in range(1, self.m + 1):
      self.root(f'V{i}')
      self.path(f'Z{i}')
    self.treatment()
    self.response()
    self.mediator()
    seeds = [s for _, _, s, _ in self.made]
    self.rep.check('own', f'{self.at} [seeds]', len(set(seeds)) == len(seeds),
                   'two random functions have the same seed')

  # the parts of a mechanism

  def own(self, v, p, what):
    """what is used for the effect of p on v and nothing else."""
    other = self.seen.setdefault(what, (v, p))
    self.rep.check('own', f'{self.at} [{p} to {v}]', other == (v, p),
                   f'the same as for {other[1]} to {other[0]}')

  def noise(self, rule, at, x, size):
    """x is one normal draw per unit, of the given dimension."""
    ds = draws(x)
    if len(ds) != 1:
      return self.rep.bad(rule, at, f'{len(ds)} draws: {t.show(x)[:300]}')
    d = ds[0]
    kw = dict(d.args[3])
    p = t.to_poly(x)
    plain = all(a is d and k == 1 or t.is_scalar(a) for m in p for a, k in m)
    plain = plain and (size is None or set(p.items()) == {(((d, 1),), 1)})
    if size is None:
      fine = d.args[1] in ('numpy.random.standard_normal', 'numpy.random.normal')
    else:
      eyes = {y.args[1][0] for y in t.subterms(kw.get('cov', t.NONE))
              if y.op == 'app' and y.args[0] == 'eye'}
      fine = d.args[1] == 'numpy.random.multivariate_normal' and \
          eyes == {t.num(size)} and kw.get('size') is N
      mean = kw.get('mean', t.NONE)
      fine = fine and mean.op == 'app' and mean.args[0] == 'full' and \
          mean.args[1][0] is t.num(size)
    self.rep.check(rule, at, plain and fine and kw.get('size') is N,
                   f'the noise is {t.show(x)[:300]}')

  def split(self, rule, at, v, x):
    """The terms of x for each parent, and the remainder."""
    parts = {p: {} for p in self.parents[v]}
    rest = {}
    for m, k in t.to_poly(x).items():
      # the draw of the noise depends on the number of units only
      ps = [p for p in parts if any(has(a, self.sym(p)) for a, _ in m)]
      if len(ps) > 1:
        self.rep.bad(rule, at, f'not a sum over the parents: {t.show(x)[:300]}')
        return None, None
      (parts[ps[0]] if ps else rest)[m] = k
    for p, d in parts.items():
      if not d:
        self.rep.bad(rule, f'{at} [{p}]', f'does not depend on {p}')
        return None, None
    return {p: t.from_poly(d) for p, d in parts.items()}, t.from_poly(rest)

  def effect(self, rule, at, v, p, x, out):
    """x is the effect of p on v: linear, or one of the random functions."""
    s = self.sym(p)
    if not self.linear:
      fs = [z for _, k, _, z in self.made]
      if out == 1 and v in 'XY':
        used = [i for i, z in enumerate(fs) if x.op == 'callres' and x.args[1] is z[0]
                and x.args[2] == (s,) and len(z) == 1]
      else:
        used = [i for i, z in enumerate(fs) if x.op == 'hcat' and len(
            x.args[0]) == len(z) and all(
                y.op == 'callres' and y.args[1] is f and y.args[2] == (s,)
                for y, f in zip(x.args[0], z))]
      if not self.rep.check(rule, f'{at} [{p}]', len(used) == 1,
                            f'the effect is {t.show(x)[:300]}'):
        return
      dim, k, _, _ = self.made[used[0]]
      self.rep.check(rule, f'{at} [{p}]', (dim, k) == (self.dim(p), out),
                     f'the function is from dimension {dim} to {k}')
      self.own(v, p, fs[used[0]][0])
      return
    cs = set()
    for m, _ in t.to_poly(x).items():
      ds = [a for a, e in m if has(a, s)]
      ok = len(ds) == 1 and ds[0].op == 'app' and ds[0].args[0] == 'dot' and \
          ds[0].args[1][0] is s and not has(ds[0].args[1][1], s) and \
          (ds[0], 1) in m and all(t.is_scalar(a) for a, _ in m if a is not ds[0])
      if not ok:
        self.rep.bad(rule, f'{at} [{p}]', f'not linear in {p}: {t.show(x)[:300]}')
        return
      cs.add(ds[0].args[1][1])
    if len(cs) != 1:
      self.rep.bad(rule, f'{at} [{p}]', f'{len(cs)} coefficients: {t.show(x)[:300]}')
      return
    k = cs.pop()
    size = dict(k.args[3]).get('size') if k.op == 'draw' else None
    dims = size.args[1] if size is not None and size.op == 'seq' else (size,)
    want = (t.num(self.dim(p)),) + ((t.num(out),) if v not in 'XY' else ())
    self.rep.check(rule, f'{at} [{p}]', tuple(dims) == want,
                   f'the coefficients are {t.show(k)[:200]}')
    self.own(v, p, k)

  # the variables

  def root(self, v):
    self.noise('roots', f'{self.at} [{v}]', self.sample(v), self.dim(v))

  def path(self, v):
    at = f'{self.at} [{v}]'
    x = self.sample(v)
    if x.op == 'ite':
      return self.rep.bad('paths', at, f'depends on the samples: {t.show(x)[:300]}')
    parts, rest = self.split('paths', at, v, x)
    if parts is None:
      return
    for p, y in parts.items():
      self.effect('paths', at, v, p, y, self.dim(v))
    self.noise('paths', at, rest, self.dim(v))

  def treatment(self):
    at = f'{self.at} [X]'
    x = self.sample('X')
    ds = draws(x, 'numpy')
    if len(ds) != 1 or ds[0].args[1] != 'numpy.random.binomial' or dict(
        ds[0].args[3]).get('n') is not t.ONE:
      return self.rep.bad('treatment', at, f'not one Bernoulli draw: {t.show(x)[:300]}')
    d, p = ds[0], dict(ds[0].args[3])['p']
    es = [y for y in t.subterms(p) if y.op == 'app' and y.args[0] == 'exp']
    a = t.neg(es[0].args[1][0]) if es else t.NONE
    if not es or Spec(self.c)('sigmoid', a) is not p:
      a = t.NONE
    self.rep.check('treatment', f'{at} [draw]', a is not t.NONE and (
        x is d or x is t.app('flatten', d, ty='arr1') or x is t.app('flatten', d)),
        f'not the sigmoid: {t.show(x)[:300]}')
    if a is t.NONE:
      return
    parts, rest = self.split('treatment', at, 'X', self.column(a))
    if parts is None:
      return
    for v, y in parts.items():
      self.effect('treatment', at, 'X', v, y, 1)
    self.rep.equal('treatment', f'{at} [offset]', rest, t.ZERO, 'the other terms')

  def response(self):
    at = f'{self.at} [Y]'
    parts, rest = self.split('response', at, 'Y', self.column(self.sample('Y')))
    if parts is None:
      return
    for v, y in parts.items():
      self.effect('response', at, 'Y', v, y, 1)
    self.noise('response', at, rest, None)

  def column(self, x):
    """A matrix with one column as that column."""
    m = {y: y.args[0][0] for y in t.subterms(x) if y.op == 'hcat' and len(
        y.args[0]) == 1}
    return t.replace(x, m) if m else x

  def mediator(self):
    at = f'{self.at} [Z0]'
    xs = [0, 1, 1, 0]
    got = self.sample('Z0', [t.seq('array', [t.num(k) for k in xs])])
    if got.op != 'seq' or len(got.args[1]) != len(xs):
      return self.rep.unsure('mediator', at, f'the sample is {t.show(got)[:300]}')
    support, ps, own = set(), {0: set(), 1: set()}, set()
    for k, y in zip(xs, got.args[1]):
      base, d = chosen(y)
      ds = [d]
      if d is None or draws(base, 'numpy.'):
        return self.rep.bad('mediator', at, f'a unit is {t.show(y)[:300]}')
      support.add(base)
      kw = dict(ds[0].args[3])
      ps[k].add((kw.get('a'), kw.get('p')))
      own.add(ds[0])
    self.rep.check('mediator', f'{at} [support]', len(support) == 1,
                   'the supports differ')
    self.rep.check('mediator', f'{at} [own]', len(own) == len(xs),
                   'two units share a draw')
    self.rep.check('mediator', f'{at} [distribution]',
                   len(ps[0]) == len(ps[1]) == 1 and not ps[0] & ps[1],
                   'the distribution is not that of the exposure')
    for k in (0, 1):
      for _, p in ps[k]:
        self.rep.check('weights', f'{at} [X={k}]', p is not None and all(
            normalised(y) for y in t.leafset(p)),
                       f'the probabilities are {t.show(p or t.NONE)[:300]}')
    s = support.pop()
    size = dict(s.args[3]).get('size') if s.op == 'draw' else None
    a, _ = next(iter(ps[0]))
    self.rep.check('mediator', f'{at} [dimension]', size is t.seq(
        'tuple', (a, t.num(self.dim('Z0')))), f'the support is {t.show(s)[:200]}')

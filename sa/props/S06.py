"""The example models report their true moments and treatment effect."""
import itertools
import math
import random

import terms as t
from drive import Ctx, S
from program import AnalysisError
from props.banditlib import Spec
from props.paperlib import items, names
from props.scmlib import lit
from report import differ
from signs import Signs

MODELS = ('back_door_scm', 'frontdoor_scm')
N = S('n', 'int')


def check(rep, prog):
  rep.rule('means', 'the reported mean of a variable is its expectation', 7)
  rep.rule('variances', 'the reported variance of a variable is its variance', 7)
  rep.rule('effect', 'the reported tau is the effect of setting X on the expectation '
           'of Y', 2)
  rep.rule('coefficients', 'the reported coefficients are those of the mechanisms', 5)
  rep.rule('units', 'every unit has its own draw', 7)
  rep.rule('probabilities', 'all probabilities are strictly between 0 and 1', 7)
  for m in MODELS:
    Model(rep, prog, m).all()


class Model:

  def __init__(self, rep, prog, name):
    self.rep, self.prog = rep, prog
    self.at = f'example_scm.{name}'
    c = self.c = Ctx(prog)
    r = items(c, c.func('example_scm', name))
    rep.fn(*sorted(c.I.analysed))
    if len(r) != 2:
      raise AnalysisError(f'{self.at} returns {len(r)} values')
    self.scm, self.out = r
    self.order = names(c, c.attr(self.scm, 'var_names'))
    self.roles = {k: c.pure(c.attr(self.scm, k + '_variable')).args[0]
                  for k in ('treatment', 'response')}
    ps = c.attr(self.scm, 'parents')
    self.parents = {v: names(c, c.I.getitem(c.st, ps, t.string(v)))
                    for v in self.order}
    self.keys = names(c, c.I.getc(c.st, self.out, 'keys'))
    self.drawn = {e.d['result'] for e, _ in c.events('draw')}

  def reported(self, k):
    return self.c.pure(self.c.I.getitem(self.c.st, self.out, t.string(k)))

  def sample(self, v, n, parents):
    """The samples of v."""
    c = self.c
    f = c.I.getitem(c.st, c.attr(self.scm, 'cpds'), t.string(v))
    x = c.pure(c.I.call(c.st, f, [n, lit(c, parents)], {}))
    self.rep.fn(*sorted(c.I.analysed))
    return t.restrict(x, c.st.pc)

  def draws(self, x):
    """The draws that were made to sample x."""
    return {y for y in t.subterms(x) if y.op == 'draw' and y not in self.drawn}

  def row(self, v, values):
    """What v is when its parents are: the probability of a one, or the mean and
    the variance of a normal variable."""
    # a second unit, with other parents, must not matter
    x = self.sample(v, t.num(2), [t.seq('array', [t.num(k), t.num(1 - k)])
                                  for k in values])
    ds = self.draws(x)
    if len(ds) != 1:
      raise AnalysisError(f'{self.at} [{v}]: {len(ds)} draws: {t.show(x)[:300]}')
    d = ds.pop()
    x = first(x)
    name, kw = d.args[1], dict(d.args[3])
    if name == 'numpy.random.binomial' and x is d and kw.get('n') is t.ONE:
      return 'bernoulli', first(kw['p'])
    if name in ('numpy.random.standard_normal', 'numpy.random.normal'):
      mean, scale = first(kw.get('loc', t.ZERO)), first(kw.get('scale', t.ONE))
      a, b = {}, {}
      for m, k in t.to_poly(x).items():
        if (d, 1) in m:
          m = tuple(z for z in m if z != (d, 1))
          b[m] = k
        else:
          a[m] = k
      b = t.from_poly(b)
      mean = t.add(t.from_poly(a), t.mul(b, mean))
      scale = t.mul(b, scale)
      if not any(y is d for y in itertools.chain(t.subterms(mean), t.subterms(scale))):
        return 'normal', (mean, t.mul(scale, scale))
    raise AnalysisError(f'{self.at} [{v}]: unknown distribution {t.show(x)[:300]}')

  def moments(self, v, do=None):
    """The first two moments of v, where do fixes some variables."""
    do = do or {}
    one = two = t.ZERO
    names_ = self.ancestors(v)
    for ks in itertools.product((0, 1), repeat=len(names_)):
      w = dict(zip(names_, ks))
      p = t.ONE
      for u, k in w.items():
        if u in do:
          p = p if do[u] == k else t.ZERO
          continue
        kind, q = self.row(u, [w[x] for x in self.parents[u]])
        if kind != 'bernoulli':
          raise AnalysisError(f'{self.at}: {u} is not binary')
        p = t.mul(p, q if k else t.sub(t.ONE, q))
      if p is t.ZERO:
        continue
      kind, q = self.row(v, [w[x] for x in self.parents[v]])
      a, b = (q, q) if kind == 'bernoulli' else (
          q[0], t.add(t.mul(q[0], q[0]), q[1]))
      one, two = t.add(one, t.mul(p, a)), t.add(two, t.mul(p, b))
    return one, two

  def ancestors(self, v):
    out, todo = set(), list(self.parents[v])
    while todo:
      u = todo.pop()
      if u not in out:
        out.add(u)
        todo += self.parents[u]
    return [u for u in self.order if u in out]

  def equal(self, rule, at, got, want, what):
    if differ(got, want, t.TRUE) is not None and same(got, want):
      self.rep.ok(rule, at)
    else:
      self.rep.equal(rule, at, got, want, what)

  def all(self):
    for v in self.order:
      at = f'{self.at} [{v}]'
      one, two = self.moments(v)
      k = v.lower()
      for rule, nm, want in (
          ('means', 'mu', one), ('variances', 'var', t.sub(two, t.mul(one, one)))):
        if f'{nm}_{k}' in self.keys:
          self.equal(rule, at, self.reported(f'{nm}_{k}'), want, f'{nm}_{k}')
        else:
          self.rep.bad(rule, at, f'there is no {nm}_{k}')
      self.units(v)
      self.valid(v)
    x, y = self.roles['treatment'], self.roles['response']
    e = [self.moments(y, {x: k})[0] for k in (0, 1)]
    self.equal('effect', self.at, self.reported('tau'), t.sub(e[1], e[0]), 'tau')
    self.coefficients()

  def units(self, v):
    ps = [S('sample_' + p, 'arr1') for p in self.parents[v]]
    for p in ps:
      t.LENGTH[p] = N
    x = self.sample(v, N, ps)
    ds = self.draws(x)
    for d in ds:
      kw = dict(d.args[3])
      size = kw.get('size')
      if size is None:
        used = set(itertools.chain.from_iterable(
            t.subterms(kw[k]) for k in ('p', 'loc', 'scale') if k in kw))
        size = N if used & set(ps) else t.ONE
      self.rep.check('units', f'{self.at} [{v}]', size is N or size is t.seq(
          'tuple', (N,)), f'a sample of size {t.show(size)[:100]} for n units')
    if not ds:
      self.rep.bad('units', f'{self.at} [{v}]', 'nothing is drawn')

  def valid(self, v):
    for ks in itertools.product((0, 1), repeat=len(self.parents[v])):
      kind, p = self.row(v, ks)
      at = f'{self.at} [{v}, {dict(zip(self.parents[v], ks))}]'
      if kind == 'normal':
        continue
      us = {y for y in t.subterms(p) if y.op == 'draw'}
      g = Signs({u: (0, 1) for u in us})
      b = g.range(p)
      ok = b[0] > 0 and b[1] < 1
      if not ok:
        up, down = fraction(p)
        ok = g.range(up)[0] > 0 and g.range(t.sub(down, up))[0] > 0
      self.rep.check('probabilities', at, ok, f'{t.show(p)[:200]} is in {b}')

  def coefficients(self):
    """What the names of the reported coefficients stand for."""
    g = lambda x: Spec(self.c)('sigmoid', x)
    r = self.reported
    if 'gamma' in self.keys:
      want = {'X': lambda u: g(t.mul(r('alpha_1'), t.num(u))),
              'Z': lambda x: g(t.mul(r('beta'), t.num(x))),
              'Y': lambda z, u: t.add(t.mul(r('gamma'), t.num(z)),
                                      t.mul(r('alpha_2'), t.num(u)))}
      args = {'X': 'U', 'Z': 'X', 'Y': 'ZU'}
    else:
      want = {'X': lambda z: t.add(t.div(t.ONE, t.num(2)), t.mul(r('alpha'), t.num(z))),
              'Y': lambda z, x: t.add(t.mul(r('beta'), t.num(z)),
                                      t.mul(r('tau'), t.num(x)))}
      args = {'X': 'Z', 'Y': 'ZX'}
    for v, f in want.items():
      at = f'{self.at} [{v}]'
      if set(self.parents[v]) != set(args[v]):
        self.rep.bad('coefficients', at, f'the parents are {self.parents[v]}')
        continue
      for ks in itertools.product((0, 1), repeat=len(args[v])):
        w = dict(zip(args[v], ks))
        kind, q = self.row(v, [w[p] for p in self.parents[v]])
        self.equal('coefficients', f'{at} {w}', q if kind == 'bernoulli' else q[0],
                   f(*ks), 'the mean')


ELEMENTWISE = ('exp', 'log', 'abs', 'sqrt', 'maximum', 'minimum')


def first(x):
  """The value for the first unit; a draw stands for its first element."""
  if x.op == 'draw':
    return x
  if x.op == 'seq':
    return first(x.args[1][0])
  if x.op == 'idx' and x.args[0].op == 'draw' and x.args[1] is t.ZERO:
    return x.args[0]
  if x.op == 'poly':
    out = t.ZERO
    for m, k in t.to_poly(x).items():
      z = t.num(k)
      for a, e in m:
        z = t.mul(z, t.power(first(a), t.num(e)))
      out = t.add(out, z)
    return out
  if x.op == 'app' and x.args[0] in ELEMENTWISE:
    return t.app(x.args[0], *[first(a) for a in x.args[1]])
  return x if t.is_scalar(x) else t.idx(x, t.ZERO)


def fraction(p):
  """The numerator and the denominator of a sum of fractions."""
  least = {}
  q = t.to_poly(p)
  for m, _ in q.items():
    for a, e in m:
      if e < 0:
        least[a] = min(e, least.get(a, 0))
  up, down = t.ZERO, t.ONE
  for a, e in least.items():
    down = t.mul(down, t.power(a, t.num(-e)))
  for m, k in q.items():
    z = t.num(k)
    exps = {a: e for a, e in m}
    for a in set(exps) | set(least):
      z = t.mul(z, t.power(a, t.num(exps.get(a, 0) - least.get(a, 0))))
    up = t.add(up, z)
  return up, down


def number(x, env):
  if x.op == 'num':
    return float(x.args[0])
  if x.op == 'pi':
    return math.pi
  if x.op == 'draw':
    if x.args[1] != 'numpy.random.random' or x.args[3]:
      raise ValueError
    return env.setdefault(x, random.Random(len(env) + env['seed']).random())
  if x.op in ('poly', 'psum'):
    return sum(float(k) * math.prod(number(a, env)**float(e) for a, e in m)
               for m, k in x.args[0])
  if x.op == 'app' and x.args[0] in ('exp', 'log') and len(x.args[1]) == 1:
    return getattr(math, x.args[0])(number(x.args[1][0], env))
  raise ValueError


def same(a, b):
  """Whether two terms over the parameters are the same function of them.

  An identity test at points of the parameter space.
  """
  try:
    for s in range(20):
      env = {'seed': 100 * s}
      if not math.isclose(number(a, env), number(b, env), rel_tol=1e-9, abs_tol=1e-9):
        return False
    return True
  except (ValueError, OverflowError):
    return False

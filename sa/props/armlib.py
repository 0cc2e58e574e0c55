"""Arms, as symbolic states: histories of updates with arbitrary data."""
import terms as t
from terms import And, Or, Not, TRUE, FALSE
from drive import Ctx, S
from program import AnalysisError
from props.later import LATER, jump
from props.rows import Sel, sels, disjoint, fold_labels

B = S('n_bootstraps', 'int')
COLS = ('cov', 'exp', 'rsp')


def arms(prog):
  """The concrete arms: the classes that override update."""
  base = prog.cls('VarianceEstimatorArm')
  out = sorted(prog.subclasses(base), key=lambda c: c.name)
  if len(out) < 2:
    raise AnalysisError(f'expected 2 arms, found {len(out)}')
  return out


def takes(cls, name):
  k, init = cls.find('__init__')
  a = init.args
  return name in [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]


class Arm:
  """One arm and the states before and after each of its updates."""

  def __init__(self, prog, cls, stable=True, alg=None, rep=None, **over):
    self.prog, self.cls, self.rep = prog, cls, rep
    self.c = c = Ctx(prog, opaque=['NuisanceParameter'])
    self.I = c.I
    over.setdefault('stable_splits', t.TRUE if stable else t.FALSE)
    if alg is not None:
      e = c.I.global_name(cls.module, 'CIAlgorithm')
      over['ci_algorithm'] = c.I.getattr(c.st, e, alg)
    over = {k: v for k, v in over.items() if takes(cls, k)}
    if takes(cls, 'n_bootstraps') and 'n_bootstraps' not in over:
      over['n_bootstraps'] = B
      c.st.pc = And(c.st.pc, t.lt(t.ZERO, B))
    self.over = over
    self.arm = c.construct(cls, **over)
    self.eta = c.attr(self.arm, 'eta')
    self.states = [c.st.copy()]
    self.td = {}
    self.case = TRUE
    self.excs = []
    self.where = f'{cls.module.name}.{cls.name}.update'
    self.stable, self.alg = stable, alg
    self.values = []
    self.count = t.ZERO  # of the updates so far
    self.label = (alg + ', ' if alg else '') + (
        'stable splits' if stable else 'new splits') + (
            ', n_bootstraps=0' if over.get('n_bootstraps') is t.ZERO else '')

  def data(self, i):
    return self.c.input(f'new{i}', ('cls', self.prog.cls('ExpData')))

  def update(self, delta=None):
    i = len(self.states)
    c = self.c
    n = len(c.excs)
    d = S(f'delta{i}' if delta is None else delta, 'num')
    v = c.method(self.arm, 'update', new_data=self.data(i), delta=d)
    for e, _ in c.events('callf'):
      self.td.setdefault(e.d['result'], t.sym(f'D{len(self.td) + 1}'))
    self.values.append(v)
    self.count = t.add(self.count, t.ONE)
    self.excs.append(c.excs[n:])
    self.states.append(c.st.copy())
    if self.rep is not None:
      self.rep.fn(*sorted(c.I.analysed))
    return v

  def jump(self):
    """Any number of further updates: counters get that much larger.

    Returns whether there are counters.  The rest of the state stays; a state
    with lists that grow with the counters is left alone.
    """
    new = jump(self.states[-2], self.states[-1], lists=False)
    if new is None:
      return False
    self.states[-1] = new
    self.c.st = new.copy()
    self.count = t.add(self.count, t.sub(LATER, t.ONE))
    return True

  def get(self, name, i=-1):
    """The value of an attribute after update i, with short names for data."""
    s = self.states[i].copy()
    v = self.I.getattr(s, self.arm, name)
    return self.short(self.I.snap(s, v))

  def call(self, name, i=-1):
    saved, self.c.st = self.c.st, self.states[i].copy()
    try:
      return self.short(self.c.pure(self.c.method(self.arm, name)))
    finally:
      self.c.st = saved

  def pc(self, i=-1):
    return And(self.short(self.states[i].pc), self.case)

  def ost(self, i=-1):
    return self.short(t.select(self.I.ost(self.states[i]), self.eta))

  def enough(self, i=-1):
    """has_enough_samples of the estimator after update i."""
    q = self.states[i].copy()
    f = self.I.getattr(q, self.eta, 'has_enough_samples')
    return self.short(t.truth(self.I.call(q, f, [], {})))

  def result(self, i=-1):
    """What update i returned."""
    return self.short(self.I.snap(self.states[i], self.values[i]))

  def ref(self, spec, fn, *args):
    """A reference function of the given values."""
    return self.c.pure(spec(fn, *args))

  def short(self, x):
    """With short names for the data, and for the case that is looked at."""
    if not isinstance(x, t.T):
      return x
    x = t.replace(x, self.td)
    if self.case is not TRUE:
      x = t.within(x, self.case)
    return x

  def cases(self):
    """Conditions that decide which rows the two splits hold."""
    cols = []
    v = self.get('var_est')
    for d in [d for _, _, d in scores_in(v)] + fits(self.ost(), self.eta):
      fs = fields(d)
      cols += [fs[c] for c in COLS] if fs else []
    out = [self.pc()]
    for c in cols:
      new = []
      for q in out:
        vs = {}
        for g, v in t.leaves(t.restrict(c, q)):
          vs[v] = Or(vs.get(v, FALSE), g)
        new += [r for r in [And(q, g) for g in vs.values()] if r is not FALSE]
      out = new
      if len(out) > 12:
        break
    return out


def plain(a):
  """(n, scores, short): names for the held-out scores of the last update.

  short replaces them, and the number of held-out units, in a term. There is one
  score for each unit.
  """
  found = current(a, scores_in(a.get('var_est')))
  if len(found) != 1:
    raise AnalysisError(f'{a.where}: var_est uses {len(found)} scored data sets')
  x, _, d = found[0]
  X = S('scores', ('arr', 'num'))
  N = t.length(X)
  lens = {}
  for c in COLS:
    n = t.length(fields(d)[c])
    one = next(m[0][0] for m, k in t.to_poly(n).items()
               if k == 1 and len(m) == 1 and m[0][1] == 1)
    lens[one] = t.add(N, t.sub(one, n))

  def short(y):
    y = t.replace(t.replace(a.short(y), {x: X}), lens)
    for _ in range(4):  # a rewritten sum may come apart into sums
      y = t.replace(y, {s: t.mul(N, t.mean(s.args[1][0])) for s in t.subterms(y)
                        if s.op == 'app' and s.args[0] == 'sumall' and
                        t.contains(X, s)})
    return y

  return N, X, short


def integer(x, sg):
  """int() of a value that is not negative rounds down."""
  return t.replace(x, {y: t.app('floor', y.args[1][0]) for y in t.subterms(x)
                       if y.op == 'app' and y.args[0] == 'int' and
                       sg.sign(y.args[1][0]) == 1})


def fields(d):
  """The columns of a pure data value."""
  if d.op != 'snap':
    return None
  return dict(d.args[1])


def parts(x):
  """The pieces of an array that is stacked from selected rows."""
  if x.op == 'cat':
    return [p for y in x.args[1] for p in parts(y)]
  if x.op == 'idx' and x.args[1].op in ('veq', 'vnot'):
    return [(x.args[0], x.args[1])]
  return [(x, None)]


def scores_in(x):
  """The scores in a term: (term, state of the estimator, data)."""
  out = []
  for y in t.subterms(x):
    if y.op == 'app' and y.args[0] == 'calculate_score' and len(
        y.args[1]) == 3 and y not in [z for z, _, _ in out]:
      out.append((y, y.args[1][1], y.args[1][2]))
  return out


def current(a, ss, i=-1):
  """The scores of data that includes the last update."""
  last = list(a.td.values())[len(a.states) + i - 1]
  return [s for s in ss if t.contains(last, s[2])] if len(ss) > 1 else ss


ALGS = ('CHI2', 'CLT', 'FINITE_SAMPLE')


def variants(cls):
  """The options of an arm that select between its ways to work."""
  for alg in ALGS if takes(cls, 'ci_algorithm') else (None,):
    for stable in (True, False) if takes(cls, 'stable_splits') else (True,):
      yield dict(alg=alg, stable=stable)
      if takes(cls, 'n_bootstraps'):
        yield dict(alg=alg, stable=stable, n_bootstraps=t.ZERO)


def histories(rep, prog, n=None, classes=None, split=True):
  """(arm, i) after each of n updates of every variant of every arm.

  Where the rows that an arm holds depend on conditions, each case comes alone.
  """
  n = n or rep.depth(4, 7)
  for cls in classes or arms(prog):
    for kw in variants(cls):
      a = Arm(prog, cls, rep=rep, **kw)
      for i in range(1, n + 1):
        a.case = TRUE
        later = i == n > 2 and a.jump()
        a.update()
        a.at = f'{a.where} [{a.label}, update {i}{" or later" if later else ""}]'
        cs = a.cases() if split else [TRUE]
        if len(cs) > 12 and i > 2:
          rep.assume(f'{a.at}: more cases than are looked at')
          break
        for q in cs:
          a.case = q if len(cs) > 1 else TRUE
          yield a, i


def fits(s, eta):
  """The data that the estimator was last fitted to, in one of its states."""
  if s.op == 'ite':
    return fits(s.args[1], eta) + fits(s.args[2], eta)
  if s.op == 'app' and s.args[0] == 'upd:fit':
    return [s.args[1][1]]
  if s.op == 'app' and s.args[0].startswith('upd:'):
    return [] if s.args[0] == 'upd:reset' else fits(s.args[1][0], eta)
  if s.op == 'sel':
    f = s.args[0]
    if f.op == 'fold':  # after at least one round
      return fits(t.select(f.args[2][0], eta), eta)
    if f.op == 'store' or f.op == 'ite':
      return fits(t.select(f, eta), eta)
  return []


def chain(x):
  """The selections, from the inside out, by which rows were taken."""
  out = []
  while x.op == 'idx':
    p = sels(x)
    if p is None or len(p) != 1 or p[0].key is None:
      return None
    out.append(p[0])
    x = x.args[0]
  return out + [Sel(x)]


def pieces(x):
  """The chains of the pieces that an array is stacked from, or None."""
  out = []
  for p in (x.args[1] if x.op == 'cat' else (x,)):
    if p.op == 'cat':
      q = pieces(p)
    else:
      c = chain(p)
      q = None if c is None else [c]
      if c is not None and c[-1].base.op == 'cat':
        rest = pieces(c[-1].base)
        q = None if rest is None else [c[:-1] + r for r in rest]
    if q is None:
      return None
    out += q
  return out


def apart(a, b):
  """Two chains select disjoint sets of units: True, False or None."""
  if origin(a) is not origin(b):
    return True
  for x in a:
    for y in b:
      if x.key is not None and x.key is y.key and x.base is y.base and disjoint(
          x, y):
        return True
  return False


def origin(c):
  """The data set that the rows come from."""
  x = c[-1].base
  return x.args[1][0] if x.op == 'app' and x.args[0].startswith('field:') else x


def covered(ps):
  """The data sets of which the selections hold every unit exactly once.

  ps are Sel objects; None if something is held twice or in part.
  """
  out = []
  groups = {}
  for s in ps:
    groups.setdefault(s.base, []).append(s)
  for base, ss in groups.items():
    if not (len(ss) == 1 and ss[0].key is None):
      if len({s.key for s in ss}) != 1 or ss[0].key is None:
        return None
      m = n_labels(ss[0].key, base)
      if m is None or m.op != 'num' or sorted(
          t.show(s.label) for s in ss) != sorted(
              str(j) for j in range(int(m.args[0]))):
        return None
    if base.op == 'cat':
      inner = sels(base)
      r = None if inner is None else covered(inner)
      if r is None:
        return None
      out += r
    else:
      out.append(origin([Sel(base)]))
  return out


def splits(a, i=-1):
  """The columns of the fitted and the scored data."""
  ss = current(a, scores_in(a.get('var_est', i)), i)
  fitted = fits(a.ost(i), a.eta)
  if len(ss) != 1 or len(fitted) != 1:
    return None
  return [fields(fitted[0]), fields(ss[0][2])]


def held(a, x, want, column):
  """The data sets that are held once each; parts without units may be missing."""
  got = covered(x)
  if got is None and a.case is TRUE:
    return None
  if got is None or len(got) < len(want):
    more = [y for y in everything(a, column) if empty(a, y)]
    more = [y for j, y in enumerate(more) if not any(
        same(y, z) for z in x + more[:j])]
    got = covered(x + more)
  if got is None:
    return None
  names = sorted(t.show(y) for y in got)
  missing = [y for y in want if t.show(y) not in names and t.entails(
      a.pc(), t.eq(t.length(t.mk('app', 'field:cov', (y,), ty=('arr', 'num'))),
                   t.ZERO))]
  return sorted(names + [t.show(y) for y in missing])


def everything(a, column):
  """The selections of rows that the arm holds in any of the cases."""
  saved, a.case = a.case, TRUE
  v = a.get('var_est')
  data = [d for _, _, d in scores_in(v)] + fits(a.ost(), a.eta)
  a.case = saved
  return [y for d in data if fields(d) for x in t.leafset(fields(d)[column])
          for y in sels(x) or []]


def empty(a, s):
  """The selection holds no units, in the case that is looked at."""
  x = s.base if s.key is None else t.idx(s.base, t.eq(s.key, s.label))
  return t.entails(a.pc(), t.eq(t.length(x), t.ZERO))


def same(y, z):
  return y.base is z.base and y.key is z.key and y.label is z.label


def n_labels(key, base):
  # the columns of a data set have the same length
  cols = {y: t.mk('app', 'field:cov', *y.args[1:], ty=y.ty) for y in t.subterms(base)
          if y.op == 'app' and y.args[0] in ('field:exp', 'field:rsp')}
  base = t.replace(base, cols)
  if key.op == 'app' and key.args[0] == 'call:numpy.array_split':
    x = dict(key.args[1][0].args[3]).get('x', t.NONE)
    n = t.length(base)
    return key.args[1][1] if x is n or t.rat_equal(t.length(x), n) else None
  return fold_labels(key, t.length(base))

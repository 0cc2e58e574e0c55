"""The examples of Section 5: their model, arms and bandits."""
import itertools
import re

import terms as t
from drive import Ctx, S
from program import AnalysisError
from props.scmlib import lit

BANDITS = ('LUCBAlgorithm', 'SuccessiveEliminationAlgorithm', 'UniformAlgorithm')
ETAS = ('AIPWLinearLogistic', 'FrontDoorLinearFiniteZ')
ARM = 'SampleSplittingArm'
COSTS = {'Z': S('z_cost', 'num'), 'V': S('v_cost', 'num'), 'Z0': S('z0_cost', 'num')}
LIMIT, PER_ROUND = S('sample_limit', 'int'), S('units_per_round', 'int')
ALG = S('ci_algorithm')
SEED = S('seed', 'int')


def sizes(rep):
  """Numbers of paths and dimensions; the V of the front-door path has none."""
  yield [1, 1], [0, 1]
  yield [2, 3], [0, 2]
  yield [1, 1, 1], [0, 1, 1]
  yield [2, 1, 3], [0, 2, 1]
  yield [1, 3, 2], [0, 1, 4]
  yield [2, 3, 3, 3], [0, 2, 2, 2]
  yield [3, 1, 2, 4], [0, 5, 1, 2]
  for m in rep.depth([4, 5, 6, 10], [4, 5, 6, 7, 8, 9, 10, 11]):
    yield [2 + i % 3 for i in range(m + 1)], [0] + [1 + i % 2 for i in range(m)]


def variables(m):
  return ['X', 'Y', 'Z0'] + [f'{a}{i}' for i in range(1, m + 1) for a in 'VZ']


def value(x):
  """A concrete number."""
  if x.op == 'num' and x.args[0].denominator == 1:
    return int(x.args[0])
  raise AnalysisError(f'not a number: {t.show(x)[:100]}')


def items(c, v):
  """The elements of a list or tuple of known length."""
  v = c.pure(v)
  if v.op != 'seq':
    raise AnalysisError(f'not a list of known length: {t.show(v)[:200]}')
  return list(v.args[1])


def names(c, v):
  out = []
  for x in items(c, v):
    if x.op != 'str':
      raise AnalysisError(f'not a name: {t.show(x)[:100]}')
    out.append(x.args[0])
  return out


class Options:
  """The arguments with which an object of the package was constructed."""

  def __init__(self, c, ref):
    o = c.I.obj(c.st, ref)
    if o is None or o.kind != 'ext':
      raise AnalysisError(f'unknown object {t.show(ref)[:100]}')
    self.cls = o.info
    k, init = self.cls.find('__init__')
    ctor = c.I.getc(c.st, ref, 'ctor')
    ps = [p.arg for p in init.args.posonlyargs + init.args.args][1:]
    kw = dict(zip(ps, ctor.args[1]))
    kw.update(dict(ctor.args[2]))
    fid = c.I.new_frame(c.st, None, k.module, None, None)
    ds = init.args.defaults
    for p, d in zip(ps[len(ps) - len(ds):], ds):
      if p not in kw:
        kw[p] = c.I.eval(d, c.st, fid)
    for p, d in zip(init.args.kwonlyargs, init.args.kw_defaults):
      if p.arg not in kw and d is not None:
        kw[p.arg] = c.I.eval(d, c.st, fid)
    self.kw = kw

  def __getitem__(self, k):
    if k not in self.kw:
      raise AnalysisError(f'{self.cls.name} was not given {k}')
    return self.kw[k]


class Example:
  """One evaluation of generate_example_from_cpd."""

  def __init__(self, rep, prog, z_dim, v_dim, latex=False, name=None, stubs=None):
    self.prog = prog
    self.z_dim, self.v_dim = z_dim, v_dim
    m = self.m = len(z_dim) - 1
    c = self.c = Ctx(prog, opaque=[ARM, *BANDITS, *ETAS], stubs=stubs)
    kw = dict(z_dim=lit(c, z_dim), v_dim=lit(c, v_dim), z_cost=COSTS['Z'],
              v_cost=COSTS['V'], z0_cost=COSTS['Z0'],
              num_back_door_paths=t.num(m), sample_limit=LIMIT,
              units_per_round=PER_ROUND, latex_names=lit(c, latex))
    if name is None:
      self.cpds = {v: S(f'cpd_{v}', 'fn') for v in variables(m)}
      kw.update(cpd_dict=lit(c, self.cpds), ci_algorithm=ALG)
    else:
      kw['seed'] = SEED
    self.where = 'paper_utils.' + (name or 'generate_example_from_cpd')
    self.at = f'{self.where} [z_dim={z_dim}, v_dim={v_dim}{", latex" * latex}]'
    v = c.func('paper_utils', name or 'generate_example_from_cpd', **kw)
    rep.fn(*sorted(c.I.analysed))
    if c.st.pc is t.FALSE:
      raise AnalysisError(f'{self.at} always raises')
    r = items(c, v)
    if len(r) != 5:
      raise AnalysisError(f'{self.at} returns {len(r)} values instead of 5')
    self.scm, self.arm_list = r[0], r[1]
    self.arms = items(c, r[1])
    self.opts = [Options(c, a) for a in self.arms]
    self.bandits = [Options(c, b) for b in r[2:]]
    self.cov = names(c, c.attr(self.scm, 'cov_variables'))
    self.order = names(c, c.attr(self.scm, 'var_names'))
    p = c.attr(self.scm, 'parents')
    self.parents = {
        v: names(c, c.I.getitem(c.st, p, t.string(v))) for v in self.order}

  def dim(self, v):
    """The dimension of a covariate, by its name."""
    g = re.fullmatch(r'([ZV])(\d+)', v)
    if g is None or int(g[2]) > self.m:
      raise AnalysisError(f'unknown covariate {v}')
    return (self.z_dim if g[1] == 'Z' else self.v_dim)[int(g[2])]

  def blocks(self):
    """The columns of each covariate."""
    out, k = {}, 0
    for v in self.cov:
      out[v] = list(range(k, k + self.dim(v)))
      k += self.dim(v)
    return out, k

  def cost(self, v):
    return COSTS['Z0' if v == 'Z0' else v[0]]


def spelled(name):
  """The variables that the name of an arm lists."""
  if name == 'frontdoor':
    return ['Z0']
  g = re.fullmatch(r'\$?((?:[ZV]_\d+)+)\$?', name)
  return re.findall(r'[ZV]_\d+', g[1]) if g else None


def columns(x, base, width):
  """The columns of base that x has, or None if it is not a choice of them."""
  if x is base:
    return list(range(width))
  if x.op == 'hcat':
    out = []
    for b in x.args[0]:
      k = columns(b, base, width)
      if k is None:
        return None
      out += k
    return out
  if x.op == 'app' and x.args[0] == 'T' and x.args[1][0].op == 'idx':
    y, key = x.args[1][0].args
    if y.op == 'app' and y.args[0] == 'T':
      return columns_at(y.args[1][0], key, base, width)
    return None
  if x.op == 'idx':
    key = x.args[1]
    if key.op == 'seq' and len(key.args[1]) == 2 and key.args[1][0] in (
        t.FULL, t.ELLIPSIS):
      return columns_at(x.args[0], key.args[1][1], base, width)
  return None


def columns_at(x, key, base, width):
  cols = columns(x, base, width)
  if cols is None:
    return None
  if key.op == 'slice':
    a = [None if k is t.NONE else value(k) for k in key.args]
    return cols[slice(*a)]
  if key.op == 'num':
    return [cols[value(key)]]
  if key.op == 'seq':
    ks = key.args[1]
    if all(k.op == 'num' for k in ks):
      ks = [value(k) for k in ks]
      if any(not -len(cols) <= k < len(cols) for k in ks):
        return None
      return [cols[k] for k in ks]
    if all(k in (t.TRUE, t.FALSE) for k in ks) and len(ks) == len(cols):
      return [c for c, k in zip(cols, ks) if k is t.TRUE]
  return None


def choices(m):
  """One of Z_i and V_i for every path i."""
  for k in itertools.product('ZV', repeat=m):
    yield {f'{a}{i + 1}' for i, a in enumerate(k)}


# The graphical criteria.

def descendants(parents, v):
  out = set()
  todo = [v]
  while todo:
    u = todo.pop()
    for w, p in parents.items():
      if u in p and w not in out:
        out.add(w)
        todo.append(w)
  return out


def ancestors(parents, vs):
  out = set(vs)
  todo = list(vs)
  while todo:
    for p in parents[todo.pop()]:
      if p not in out:
        out.add(p)
        todo.append(p)
  return out


def separated(parents, xs, ys, zs):
  """d-separation, by the moralised graph of the ancestors."""
  keep = ancestors(parents, set(xs) | set(ys) | set(zs))
  near = {v: set() for v in keep}
  for v in keep:
    for p in parents[v]:
      near[v].add(p)
      near[p].add(v)
    for p, q in itertools.combinations(parents[v], 2):
      near[p].add(q)
      near[q].add(p)
  seen = set(xs) - set(zs)
  todo = list(seen)
  while todo:
    for w in near[todo.pop()]:
      if w not in seen and w not in zs:
        seen.add(w)
        todo.append(w)
  return not seen & set(ys)


def cut_from(parents, v):
  """The graph without the edges out of v."""
  return {w: [p for p in ps if p != v] for w, ps in parents.items()}


def back_door(parents, x, y, zs):
  return not set(zs) & (descendants(parents, x) | {x, y}) and separated(
      cut_from(parents, x), [x], [y], zs)


def front_door(parents, x, y, zs):
  """All directed paths from x to y go through zs, and both parts are unconfounded."""
  if set(zs) & {x, y}:
    return False
  cut = {w: [] if w in zs else ps for w, ps in parents.items()}
  if y in descendants(cut, x):
    return False
  if not separated(cut_from(parents, x), [x], list(zs), []):
    return False
  without = parents
  for z in zs:
    without = cut_from(without, z)
  return separated(without, list(zs), [y], [x])

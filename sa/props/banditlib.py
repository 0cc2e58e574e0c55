"""The run loops of the bandit algorithms, as symbolic states."""
import terms as t
from terms import And, Or, Not, TRUE, FALSE
from drive import Ctx, S
from program import AnalysisError
from report import agree, differ

OPAQUE = ('VarianceEstimatorArm', 'DataGenerator', 'ExpData')
HIST = ('lcb_by_arm', 'ucb_by_arm', 'var_est_by_arm')


def algorithms(prog):
  """The concrete bandit algorithms: subclasses that define how to run."""
  base = prog.cls('BAIBanditAlgorithm')
  out = [c for c in prog.subclasses(base) if c.find('run')[1] is not None]
  if len(out) < 3:
    raise AnalysisError(f'expected 3 bandit algorithms, found {len(out)}')
  return sorted(out, key=lambda c: c.name)


def arms_of(prog):
  base = prog.cls('VarianceEstimatorArm')
  return sorted([base] + list(prog.subclasses(base)), key=lambda c: c.name)


class Run:
  """One symbolic run of an algorithm."""

  def __init__(self, prog, alg, rep=None, stable=None, **over):
    self.prog, self.alg = prog, alg
    stubs = {}
    self.pick = None
    if alg.find('select_arms')[1] is not None:
      arm = prog.cls('VarianceEstimatorArm')
      self.pick = t.sym('picked', ('list', ('cls', arm)))
      t.SUBSEQ[self.pick] = S('arm_list', ('list', ('cls', arm)))

      def select(I, st, args, kw):
        pre = t.select(st.fams['ost'], t.tmp('q'))
        return I.new_list(st, self.pick)

      stubs['select_arms'] = select
    self.c = c = Ctx(prog, opaque=OPAQUE, stubs=stubs)
    self.I = c.I
    over.setdefault('sample_limit', S('sample_limit', 'num'))
    self.bandit = c.construct(alg, **over)
    self.pre = c.st.copy()
    ed = prog.cls('ExpData')
    kw = {}
    if stable is not None:
      kw['all_data'] = S('all_data', ('cls', ed)) if stable else t.NONE
      self.all_data = kw['all_data']
    self.value = c.method(self.bandit, 'run', **kw)
    self.post = c.st
    if rep is not None:
      rep.fn(*sorted(c.I.analysed))
    whiles = [e for e, path in c.events('while') if not path]
    if len(whiles) != 1:
      raise AnalysisError(
          f'{alg.name}.run: expected one main loop, found {len(whiles)}')
    self.e = whiles[0]
    d = self.e.d
    self.heads = d['heads']
    self.outer = self.e.pc
    self.init, self.head, self.back = d['init'], d['head'], d['back']
    self.exits = [(pc, s) for pc, s in d['exit_states'] + [
        (q.pc, q) for q, _ in d['rets']] if pc is not FALSE]
    # a further round is played
    self.again = t.FALSE if self.back is None else And(self.back.pc,
                                                       d['cond_back'])
    arm_cls = prog.cls('VarianceEstimatorArm')
    self.arm_list = S('arm_list', ('list', ('cls', arm_cls)))
    al = [v for v in self.arm_syms()]
    self.arm_list = al[0] if al else self.arm_list
    self.n = t.length(self.arm_list)
    self.k = t.tmp('j', ty='int')
    self.arm = t.idx(self.arm_list, self.k)
    self.u = self.attr0('units_per_round')
    self.where = f'{alg.module.name}.{alg.name}.run'

  def arm_syms(self):
    for nm in ('_arms', 'arms', 'arm_list'):
      try:
        v = self.I.getattr(self.pre, self.bandit, nm)
      except Exception:
        continue
      v = self.I.content(self.pre, v)
      if v.op == 'sym':
        yield v

  def attr0(self, nm):
    return self.I.getattr(self.pre, self.bandit, nm)

  def field(self, nm):
    v = self.I.getattr(self.post, self.value, nm)
    return v

  def states(self):
    """The states at which a round is over, with their path conditions."""
    out = [('next round', self.back.pc, self.back)] if self.back else []
    for i, (pc, s) in enumerate(self.exits):
      if all(s is not q for _, _, q in out):
        out.append((f'exit {i + 1}', pc, s))
    return out

  def hist(self, s, nm, arm=None):
    """The history of one arm in state s, as a sequence."""
    v = self.field(nm)
    o = self.I.obj(s, v) if v.op == 'ref' else None
    if o is None or o.kind != 'dict':
      raise AnalysisError(f'{self.where}: {nm} is not one dictionary')
    f = t.select(o.comps['fam'], arm if arm is not None else self.arm)
    r = self.I.content(s, f)
    return self.norm(r)

  def keys(self, s, nm):
    o = self.I.obj(s, self.field(nm))
    return o.comps['keys'] if o is not None and o.kind == 'dict' else None

  def listing(self, s, nm):
    v = self.field(nm)
    if v.op != 'ref' or v.args[0] not in s.heap:
      raise AnalysisError(f'{self.where}: {nm} is not one list')
    return self.norm(self.I.content(s, v))

  def norm(self, x):
    if self.pick is None or not isinstance(x, t.T):
      return x
    ln = t.length(self.pick)
    return t.replace(x, {ln: t.num(2)})

  def ost(self, s, obj=None):
    return t.select(self.I.ost(s), obj if obj is not None else self.arm)

  def spec(self, s, fn, *args):
    """Evaluates a reference function in a copy of state s."""
    q = s.copy(TRUE)
    q.log = ()
    c = self.c
    saved, c.st = c.st, q
    try:
      m = spec_module(c.prog)
      f = m.funcs[fn]
      c.I.excs.append([])
      r = c.I.call(q, c.I.mkfunc(m, f, None, None), list(args), {})
      c.I.excs.pop()
      return self.norm(c.I.snap(q, r))
    finally:
      c.st = saved

  def entry(self, s, nm):
    """What the history nm should record for the arm in state s."""
    return self.spec(s, nm, self.arm)

  def appended(self, s, pc, nm):
    """(recorded, untouched): when the history got exactly one entry, or none."""
    h0, h1 = self.hist(self.head, nm), self.hist(s, nm)
    # by induction the last entry of an earlier round is the current value
    last = t.idx(h0, t.num(-1))
    if last in t.subterms(h1):
      h1 = t.replace(h1, {last: self.norm(self.entry(self.head, nm))})
    want = t.cat('list', [h0, t.seq('list', [self.entry(s, nm)])])
    return agree(h1, want, pc), agree(h1, h0, pc)

  def grown(self, s, pc):
    """(added, untouched, the new last value) of cum_samples."""
    h0, h1 = self.listing(self.head, 'cum_samples'), self.listing(
        s, 'cum_samples')
    last = t.idx(h1, t.num(-1))
    want = t.cat('list', [h0, t.seq('list', [last])])
    same = agree(h1, h0, pc)
    return And(agree(h1, want, And(pc, Not(same)))), same, last

  def last_total(self):
    """The symbol of the last entry of cum_samples, and its equivalents."""
    LAST = S('last_total', 'num')
    h0 = self.listing(self.head, 'cum_samples')
    i0 = self.listing(self.init, 'cum_samples')
    if i0.op == 'seq' and not i0.args[1]:
      first = t.ZERO
    else:
      first = t.idx(i0, t.num(-1))
    m = {t.idx(h0, t.num(-1)): LAST}
    back_last = t.idx(self.listing(self.back, 'cum_samples'), t.num(-1))
    for cc, L in self.heads.items():
      if cc[0] == 'obj' or L.op != 'sym':
        continue
      try:
        a, b = self.I.get_comp(self.init, cc), self.I.get_comp(self.back, cc)
      except Exception:
        continue
      if not isinstance(a, t.T) or not isinstance(b, t.T):
        continue
      if differ(self.norm(a), first, self.outer) is None and differ(
          self.norm(b), back_last, self.back.pc) is None:
        m[L] = LAST
    return LAST, first, m


_spec = {}


def spec_module(prog):
  import ast, os
  from program import ModuleInfo
  if id(prog) in _spec:
    return _spec[id(prog)]
  path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(
      __file__))), 'spec', 'reference.py')
  with open(path) as f:
    src = f.read()
  m = ModuleInfo('reference', path, ast.parse(src), src)
  prog._scan(m)
  _spec[id(prog)] = m
  return m


def chain(x, base):
  """The updates of an object from state base to state x, first to last.

  Each is (name, args, kws, state before); None if x is not reached from base
  by method calls.
  """
  out = []
  while x is not base:
    if x.op == 'app' and isinstance(x.args[0], str) and x.args[0].startswith(
        'upd:'):
      pos, kws = x.args[1], x.args[2]
      out.append((x.args[0][4:], pos[1:], dict(kws), pos[0]))
      x = pos[0]
    else:
      return None
  return out[::-1]


def steps(run):
  """(label, pc, before, after, in the loop): the pieces of a run."""
  out = [('start', run.outer, run.pre, run.init, False)]
  for lab, pc, s in run.states():
    out.append((lab, pc, run.head, s, True))
  return out


def updates(run, before, after, pc):
  """(guard, chain of updates of the arm) for the cases of one piece."""
  base = run.norm(run.ost(before))
  x = t.restrict(run.norm(run.ost(after)), pc)
  for g, y in t.leaves(x):
    g = And(g, pc)
    if g is FALSE:
      continue
    yield g, chain(y, base)


def update_args(prog, u):
  """The batch and the error level of one update, whatever the spelling."""
  name, pos, kws, pre = u
  names = ['new_data', 'delta']
  k, fn = prog.cls('VarianceEstimatorArm').find('update')
  if fn is not None:
    names = [a.arg for a in fn.args.args[1:]]
  pos = list(pos) + [None] * 2
  data = pos[0] if pos[0] is not None else kws.get(names[0])
  delta = pos[1] if pos[1] is not None else kws.get(names[1])
  return data, delta


def pool(run):
  """The candidate list of an elimination algorithm: its head symbol.

  Returns (symbol, its value before the loop, its value after a round), or the
  arms themselves when every arm is updated in every round.
  """
  found = set()
  for pc, s in [(run.back.pc, run.back)]:
    x = t.restrict(run.ost(s), pc)
    for a in t.atoms_of(x):
      if a.op == 'in' and a.args[0] is run.arm:
        found.add(a.args[1])
  if not found:
    return None
  if len(found) > 1:
    raise AnalysisError(f'{run.where}: several candidate collections')
  X = found.pop()
  for cc, L in run.heads.items():
    h = L
    if L.op == 'ref':
      h = run.I.content(run.head, L)
    if h is X:
      a = run.I.get_comp(run.init, cc)
      b = run.I.get_comp(run.back, cc)
      if cc[0] != 'obj':
        a, b = run.I.content(run.init, a), run.I.content(run.back, b)
      return X, a, t.restrict(b, run.back.pc)
  return None


def conditions(run, s):
  """The confidence condition of a run in state s, in equivalent spellings."""
  tol = run.attr0('error_tol')
  return [t.truth(run.spec(s, f, run.arm_list, tol))
          for f in ('stop_condition', 'stop_condition_each')]


def condition(run, s):
  """The confidence condition under which a run may end in state s."""
  return Or(*conditions(run, s))


def over_budget(run, s):
  """(eqs, the cumulative total in state s, whether it exceeds the limit)."""
  LAST, first, eqs = run.last_total()
  h = run.listing(s, 'cum_samples')
  T = t.replace(t.idx(h, t.num(-1)), eqs)
  T = run.norm(t.replace(T, {t.idx(run.listing(run.head, 'cum_samples'),
                                   t.num(-1)): LAST}))
  return eqs, T, t.gt(T, run.attr0('sample_limit'))


def result(run, s, pc):
  """The list of winners returned from the exit state s."""
  v = run.field('best_arm')
  v = t.restrict(v, t.And(run.outer, pc)) if v.op == 'ite' else v
  out = []
  for g, x in t.leaves(v):
    g = t.And(g, pc)
    if g is t.FALSE:
      continue
    y = run.I.content(run.post, x) if x.op == 'ref' and x.args[
        0] in run.post.heap else run.I.content(s, x)
    if y.op == 'ite':
      y = t.restrict(y, t.And(run.outer, g))
    for g2, z in t.leaves(y):
      g2 = t.And(g2, g)
      if g2 is not t.FALSE:
        out.append((g2, run.norm(z)))
  return out


class Spec:
  """Evaluates reference functions in a copy of the current state."""

  def __init__(self, c):
    self.c = c
    self.state = c.st.copy()
    self.sites = None

  def freeze(self, st):
    """The references are to be evaluated in place of what happens next."""
    self.state = st
    self.sites = {k: list(v) for k, v in self.c.I.sites.items()}

  def __call__(self, fn, *args, state=None):
    c = self.c
    saved = c.I.sites
    if self.sites is not None:
      c.I.sites = {k: list(v) for k, v in self.sites.items()}
    try:
      return self.evaluate(fn, args, state)
    finally:
      c.I.sites = saved

  def evaluate(self, fn, args, state):
    c = self.c
    q = (state or self.state).copy(t.TRUE)
    q.log = ()
    m = spec_module(c.prog)
    c.I.excs.append([])
    r = c.I.call(q, c.I.mkfunc(m, m.funcs[fn], None, None), list(args), {})
    c.I.excs.pop()
    return c.I.snap(q, r)


def members(xs):
  """Replaces elements drawn from filtered sequences by generic elements.

  Returns what is known about the generic elements, and the rewritten terms.
  """
  facts = t.TRUE
  m = {}
  for x in xs:
    for y in t.subterms(x):
      if y.op == 'draw' and y.args[1].endswith('.choice') and 'size' not in dict(
          y.args[3]) and y not in m:
        s = dict(y.args[3]).get('a')
      elif y.op == 'idx' and y.args[0].op == 'map' and y.args[0].args[
          2] is not t.TRUE and y not in m:
        s = y.args[0]
      else:
        continue
      k = t.tmp('pick', ty='int')
      if s is not None and s.op == 'map':
        m[y] = t.inst(s, k, 3)
        facts = t.And(facts, t.inst(s, k, 2))
      elif s is not None and t.is_listish(s):
        m[y] = t.idx(s, k)
  return facts, [t.replace(x, m) for x in xs]

"""Separate objects do not share what changes."""
import terms as t
from terms import And
from drive import Ctx, S
from program import AnalysisError
from props.datalib import data_of
from props.funclib import unchanged
from props.scmlib import model


def given(c, cls, i, **over):
  """The arguments of object i: the defaults, and other symbols for the rest."""
  k, init = cls.find('__init__')
  a = init.args
  pos = (a.posonlyargs + a.args)[1:]
  has = {p.arg for p in pos[len(pos) - len(a.defaults):]} if a.defaults else set()
  has |= {p.arg for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
  out = {}
  for p in pos + a.kwonlyargs:
    if p.arg in over:
      out[p.arg] = over[p.arg]
    elif p.arg in has:
      out[p.arg] = None  # the default
    else:
      out[p.arg] = S(f'{p.arg}.{i}', c.prog.annotation(k.module, p.annotation))
      if t.is_cls(out[p.arg].ty):
        t.APART.add(out[p.arg])
  return out


def data_set(c, cls, i):
  return data_of(c, f'given{i}', same=True)


def scm(c, cls, i):
  return c.construct(cls, **{**given(c, cls, i), **model(
      c, {'z': [], 'x': ['z'], 'y': ['x', 'z']}, ['z'], 'x', 'y', cpds={
          v: S(f'cpd_{v}.{i}', 'fn') for v in 'zxy'})})


def estimator(c, cls, i):
  return c.construct(cls, **given(c, cls, i, n_features=S('n_features', 'int')))


def bandit(c, cls, i):
  arm = c.prog.cls('VarianceEstimatorArm')
  arms = [S(f'arm{i}{j}', ('cls', arm)) for j in range(2)]
  t.APART.update(arms)
  return c.construct(cls, **given(
      c, cls, i, arm_list=c.I.new_list(c.st, t.seq('list', arms)),
      sample_limit=t.num(100)))


def plain(c, cls, i):
  return c.construct(cls, **given(c, cls, i))


def uses(c, cls, kind, i):
  """(method, arguments) of what changes an object."""
  d = lambda n: data_of(c, f'{n}{i}', same=True)
  n = S('n_samples', 'int')
  if kind == 'ExpData':
    return [('append', dict(new_data=d('more')))]
  if kind == 'TabularCPD':
    x, z = S(f'xs{i}', 'arr1'), S(f'zs{i}', 'arr2')
    t.LENGTH[x] = t.LENGTH[z] = S(f'units{i}', 'int')
    return [('fit', dict(x=x, z=z))]
  if kind == 'DataGenerator':
    return [('generate', dict(n_samples=n))] + [
        ('compute_treatment_effect', dict(n_samples=n))] * (
            cls.find('compute_treatment_effect')[1] is not None)
  if kind == 'NuisanceParameter':
    return [('fit', dict(d=d('fitted'))), ('calculate_score', dict(d=d('scored'))),
            ('reset', {}), ('fit', dict(d=d('fitted')))]
  if kind == 'VarianceEstimatorArm':
    up = ('update', dict(new_data=d('new'), delta=S('delta', 'num')))
    return [up, up, ('reset', {}), up]
  return [('reset', {})]


KINDS = {'ExpData': data_set, 'TabularCPD': plain, 'DataGenerator': plain,
         'NuisanceParameter': estimator, 'VarianceEstimatorArm': plain,
         'BAIBanditAlgorithm': bandit}


def check(rep, prog):
  rep.rule('made', 'making an object changes no other one', 30)
  rep.rule('used', 'using an object changes nothing of another one of its kind that '
           'was made of other things', 60)
  rep.rule('acts', 'an object returns the same whether or not another one of its '
           'kind was used', 50)
  rep.rule('later', 'objects that are made later are as new', 30)
  rep.assume('Objects that are given to a constructor are different.')
  for base, make in KINDS.items():
    root = prog.cls(base)
    for cls in sorted({root, *prog.subclasses(root)}, key=lambda k: k.qual):
      if cls.find('__init__')[1] is None:
        continue
      pair(rep, prog, cls, base, scm if cls.name == 'SCM' else make)


def pair(rep, prog, cls, kind, make):
  opaque = ['NuisanceParameter'] if kind == 'VarianceEstimatorArm' else []
  c = Ctx(prog, opaque=opaque)
  at = f'{cls.module.name}.{cls.name}'
  a = make(c, cls, 1)
  before = c.st.copy()
  b = make(c, cls, 2)
  same(rep, 'made', f'{at}.__init__', c, before, c.st, a, cls)
  first = c.st.copy()
  for j, (name, args) in enumerate(uses(c, cls, kind, 1)):
    if cls.find(name)[1] is None:
      continue
    before = c.st.copy()
    c.method(a, name, **args)
    rep.fn(*sorted(c.I.analysed))
    if c.st.pc is t.FALSE:
      raise AnalysisError(f'{at}.{name} always raises')
    same(rep, 'used', f'{at}.{name} [{j}]', c, before, c.st, b, cls)
  end = c.st.copy()
  acts(rep, c, at, cls, kind, first, end, b)
  c.st = end
  # one more, made after the use
  d = make(c, cls, 2)
  snap(rep, 'later', f'{at}.__init__', c, first, b, c.st, d)


def acts(rep, c, at, cls, kind, first, end, b):
  """What an object returns does not depend on the use of another one."""
  got = []
  what = [(n, a) for n, a in uses(c, cls, kind, 2) if cls.find(n)[1] is not None]
  for st in first, end:
    c.st = st.copy()
    if kind == 'VarianceEstimatorArm':  # that of its own model is as before
      c.st.fams['ost'] = c.I.ost(first)
    got.append([])
    for name, args in what:
      v = c.method(b, name, **args)
      got[-1].append((c.pure(v), c.st.pc))
  for j, ((u, p), (v, q)) in enumerate(zip(*got)):
    where = f'{at}.{what[j][0]} [{j}]'
    rep.equal('acts', where, v, u, 'what an object returns after another one was '
              'used', And(p, q))
    rep.equal('acts', f'{where} [raises]', q, p, 'when an object raises after '
              'another one was used', end.pc)


def same(rep, rule, at, c, before, after, ref, cls):
  """Nothing that can be reached from an object is changed, nor its models."""
  unchanged(rep, rule, at, c, before, after, ref, after.pc, 'another object')
  for name in shared(cls):
    v = c.I.getattr(before.copy(), ref, name)
    unchanged(rep, rule, f'{at} [{name}]', c, before, after, v, after.pc, name)
  a, b = c.I.ost(before), c.I.ost(after)
  for r, what in reach(c, before, ref, cls):
    x, y = (t.select(o, r) for o in (a, b))
    rep.equal(rule, f'{at} [{what}]', y, x, f'the state of {what} of another object',
              after.pc)


def shared(cls):
  """The public attributes of a class. Of others, only what they do matters."""
  return sorted({n for k in cls.mro() for n in k.attrs if not n.startswith('_')})


def reach(c, st, ref, cls):
  """The objects that can be reached from one, its class included."""
  todo, seen = [(ref, cls.name)], set()
  for name in shared(cls):
    todo.append((c.I.getattr(st.copy(), ref, name), name))
  while todo:
    v, what = todo.pop()
    for r in t.subterms(v):
      if r in seen or r.op not in ('ref', 'fref') and r not in t.APART:
        continue
      seen.add(r)
      o = st.heap.get(r.args[0]) if r.op in ('ref', 'fref') else None
      if o is None or o.kind == 'ext':
        yield r, what
      for name, x in (o.comps.items() if o else ()):
        todo.append((x, name if o.kind == 'inst' else what))


def snap(rep, rule, at, c, s1, a, s2, b):
  """A new object is as one that was made before."""
  x, y = s1.heap[a.args[0]], s2.heap[b.args[0]]
  rep.check(rule, at, set(x.comps) == set(y.comps), 'a new object has other '
            f'attributes: {sorted(set(x.comps) ^ set(y.comps))}')
  todo = [(k, x.comps[k], y.comps[k]) for k in sorted(set(x.comps) & set(y.comps))]
  seen, new = set(), {b: a}
  while todo:
    k, u, v = todo.pop(0)
    if not (isinstance(u, t.T) and isinstance(v, t.T)):
      continue
    p, q = (handles(w) for w in (u, v))
    if len(p) == len(q):
      new.update(zip(q, p))
    for r, w in zip(p, q) if len(p) == len(q) else ():
      if w in seen:
        continue
      seen.add(w)
      o, n = (z.heap.get(h.args[0]) for z, h in ((s1, r), (s2, w)))
      if o and n and o.kind == n.kind and (
          o.info is n.info or o.kind == 'dict'):
        todo += [(f'{k} {i}', o.comps[i], n.comps[i])
                 for i in sorted(set(o.comps) & set(n.comps))]
        if o.kind == 'ext' and r.op == 'ref':
          todo.append((f'{k} state', *(t.select(c.I.ost(z), h) for z, h in (
              (s1, r), (s2, w)))))
      else:
        rep.check('later', f'{at} [{k}]', o is None and n is None and r is w,
                  'a part of a new object is of another kind')
    rep.equal('later', f'{at} [{k}]', t.replace(v, new), u, 'a part of a new '
              'object', s2.pc)


def handles(v):
  return [x for x in t.subterms_in_order(v) if x.op in ('ref', 'fref', 'famref')]

"""One evaluation of a function or method, compared with reference functions."""
import terms as t
from terms import And, Or, Not, TRUE, FALSE
from drive import Ctx, S
from program import AnalysisError
from props.banditlib import Spec


class Fn:
  """The evaluation of one function on symbolic inputs."""

  def __init__(self, rep, c, where, label=''):
    self.rep, self.c, self.where = rep, c, where
    self.label = label
    self.spec = Spec(c)
    self.before = c.st.copy()

  @property
  def at(self):
    return self.where + (f' [{self.label}]' if self.label else '')

  def method(self, ref, name, **kw):
    c = self.c
    self.before = c.st.copy()
    self.spec.freeze(self.before)
    c.st.log = ()
    n = len(c.excs)
    self.value = c.method(ref, name, **kw)
    return self._done(n)

  def func(self, mod, name, **kw):
    c = self.c
    self.before = c.st.copy()
    self.spec.freeze(self.before)
    c.st.log = ()
    n = len(c.excs)
    self.value = c.func(mod, name, **kw)
    return self._done(n)

  def apply(self, fn, *args, **kw):
    """Calls a function value."""
    c = self.c
    self.before = c.st.copy()
    self.spec.freeze(self.before)
    c.st.log = ()
    n = len(c.excs)
    self.value = c.I.call(c.st, fn, list(args), kw)
    return self._done(n)

  def build(self, cls, **kw):
    c = self.c
    self.before = c.st.copy()
    self.spec.freeze(self.before)
    c.st.log = ()
    n = len(c.excs)
    self.value = c.construct(cls, **kw)
    return self._done(n)

  def _done(self, n):
    c = self.c
    self.excs = c.excs[n:]
    self.pc = c.st.pc
    self.rep.fn(*sorted(c.I.analysed))
    return self

  @property
  def result(self):
    return self.c.pure(self.value)

  def raised(self, *names):
    """The condition under which an exception (of the given names) is raised."""
    return Or(*[s.pc for s, n, _ in self.excs if not names or n in names])

  def expect(self, rule, fn, *args, got=None, pc=None, detail='the result'):
    want = self.spec(fn, *args)
    return self.rep.equal(rule, self.at, self.result if got is None else got,
                          want, detail, self.pc if pc is None else pc)

  def rejects(self, rule, fn, *args, within=TRUE, names=('ValueError',)):
    """Exactly the inputs that satisfy the reference predicate are rejected."""
    want = t.truth(self.spec(fn, *args))
    got = self.raised(*names)
    a = self.rep.hold(rule, self.at + ' [accepts invalid input]', got,
                      'invalid input is not rejected', And(within, want))
    b = self.rep.hold(rule, self.at + ' [rejects valid input]', Not(self.raised()),
                      'valid input is rejected', And(within, Not(want)))
    return a and b


def snapped(d):
  """The attributes of a pure value of a class."""
  if d.op != 'snap':
    return None
  return dict(d.args[1])


def comps(st, ref):
  """The attributes of an object of the heap, as stored."""
  return dict(st.heap[ref.args[0]].comps)


def same_object(rep, rule, where, c, before, after, ref, pc, what):
  """No attribute of the object differs between two states."""
  a, b = comps(before, ref), comps(after, ref)
  for k in sorted(set(a) | set(b)):
    x, y = a.get(k), b.get(k)
    if x is None or y is None:
      rep.bad(rule, f'{where} [{k}]', f'{what}: attribute {k} appears or vanishes')
      continue
    x, y = c.I.snap(before, x), c.I.snap(after, y)
    rep.equal(rule, f'{where} [{k}]', y, x, f'{what}: attribute {k}', pc)


def unchanged(rep, rule, where, c, before, after, ref, pc, what):
  """Everything reachable from the object is as before.

  Attributes that only appear (a cache, say) are left to the checks of what the
  later calls compute.
  """
  seen = set()
  compared = 0
  st = [(ref, what)]
  while st:
    v, path = st.pop()
    for r in t.subterms(v):
      if r.op not in ('ref', 'fref') or r.args[0] in seen:
        continue
      seen.add(r.args[0])
      o, p = before.heap.get(r.args[0]), after.heap.get(r.args[0])
      if o is None:
        continue
      if o is p:
        st += [(x, path) for x in o.comps.values()]
        continue
      for k in sorted(o.comps):
        compared += 1
        x, y = o.comps[k], p.comps.get(k) if p else None
        name = f'{path}.{k}' if o.kind == 'inst' else path
        if y is None:
          rep.bad(rule, f'{where} [{name}]', f'{what}: attribute {k} vanishes')
          continue
        a, b = c.I.snap(before, x), c.I.snap(after, y)
        rep.equal(rule, f'{where} [{name}]', b, a, f'{what}: attribute {k}', pc)
        st.append((x, name))
  if not compared:
    rep.ok(rule, where)

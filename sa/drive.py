"""Evaluates functions and methods of the package on symbolic inputs."""
import ast

from program import AnalysisError, ClassInfo
from interp import Interp, State
import terms as t
from terms import mk, TRUE, FALSE, And, Or, Not

_syms = {}


def S(name, ty=None):
  """The input symbol of a name (the same one in every evaluation)."""
  key = (name, str(ty))
  if key not in _syms:
    _syms[key] = t.sym(name, ty)
  return _syms[key]


class Ctx:
  """One evaluation: an interpreter and the current state."""

  def __init__(self, prog, opaque=(), **kw):
    self.prog = prog
    self.I = Interp(prog, opaque=opaque, **kw)
    self.st = State()
    self.st.pc = TRUE
    self.I.ost(self.st)
    self.I.imported(self.st)

  def args(self, mod, fn, over, method):
    """Symbolic arguments of a function, by name."""
    out = {}
    ps = fn.args.posonlyargs + fn.args.args
    if method:
      ps = ps[1:]
    for p in ps + fn.args.kwonlyargs:
      if p.arg in over:
        v = over[p.arg]
        if v is not None:
          out[p.arg] = v
        continue
      out[p.arg] = self.input(p.arg, self.prog.annotation(mod, p.annotation))
    for k, v in over.items():
      if k not in out and v is not None:
        out[k] = v
    return out

  def input(self, name, ty):
    if isinstance(ty, tuple) and ty[0] == 'cls' and ty[1].name == 'ExpData' and \
        ty[1] not in self.I.opaque:
      return self.I.symbolic(self.st, ty, None, base=S(name, ty))
    return S(name, ty)

  def construct(self, cls, **over):
    c = self.prog.cls(cls) if isinstance(cls, str) else cls
    k, init = c.find('__init__')
    kw = self.args(k.module, init, over, True) if init is not None else over
    self.I.where = (c.module.name, c.node.lineno, c.name)
    return self.I.instantiate(self.st, c, [], kw)

  def method(self, ref, name, args=None, **over):
    o = self.I.obj(self.st, ref)
    c = o.info if o is not None else ref.ty[1]
    k, m = c.find(name)
    if m is None:
      raise AnalysisError(f'{c.name} has no method {name}')
    kw = self.args(k.module, m, over, True)
    f = self.I.mkfunc(k.module, m, None, k)
    return self.I.call(self.st, mk('bound', f, ref), args or [], kw)

  def func(self, mod, name, args=None, **over):
    m, fn = self.prog.func(mod, name)
    kw = self.args(m, fn, over, False)
    return self.I.call(self.st, self.I.mkfunc(m, fn, None, None), args or [], kw)

  def attr(self, ref, name):
    return self.I.getattr(self.st, ref, name)

  def pure(self, v):
    return self.I.snap(self.st, v)

  @property
  def excs(self):
    return self.I.excs[0]

  def events(self, kind=None, log=None):
    """All events, those inside loops included, with the loops around them."""
    out = []

    def go(es, path):
      for e in es:
        if e.kind in ('foreach', 'while'):
          if kind is None or e.kind == kind:
            out.append((e, path))
          go(e.d['events'], path + (e,))
        elif kind is None or e.kind == kind:
          out.append((e, path))

    go(self.st.log if log is None else log, ())
    return out

"""Abstract evaluation of the package's functions over the term domain.

Functions are evaluated on symbolic inputs, once per statement with a join at
every control-flow merge (no path enumeration, no solver): branches join into
conditional terms, for-loops are summarised as maps, filters, sums and family
updates by matching the recurrence of every modified location, and while-loops
are described by the transformation from the state at the loop head to the
state at the back edge and at the exits.
"""
import ast
import copy
import itertools

import alias
from program import AnalysisError, ClassInfo
import terms as t
from terms import (T, mk, TRUE, FALSE, NONE, BOTTOM, ITE, And, Or, Not, num,
                   string, seq, tmp, sym, restrict)

UNDEF = mk('undef')
FAMEMPTY = mk('famempty')


class Obj:
  """A heap object (or, with fam=True, a family of them)."""
  __slots__ = ('kind', 'info', 'comps', 'fam')

  def __init__(self, kind, info=None, comps=None, fam=False):
    self.kind, self.info, self.comps, self.fam = kind, info, comps or {}, fam

  def put(self, name, v):
    c = dict(self.comps)
    c[name] = v
    return Obj(self.kind, self.info, c, self.fam)


class Event:
  __slots__ = ('kind', 'pc', 'd', 'where')

  def __init__(self, kind, pc, d, where):
    self.kind, self.pc, self.d, self.where = kind, pc, d, where

  def __repr__(self):
    return f'<{self.kind} {self.d} @{self.where}>'


class State:
  __slots__ = ('pc', 'frames', 'heap', 'fams', 'log')

  def __init__(self):
    self.pc, self.frames, self.heap, self.fams, self.log = TRUE, {}, {}, {}, ()

  def copy(self, pc=None):
    s = State()
    s.pc = self.pc if pc is None else pc
    s.frames = {k: dict(v) for k, v in self.frames.items()}
    s.heap = dict(self.heap)
    s.fams = dict(self.fams)
    s.log = self.log
    return s

  def take(self, o):
    self.pc, self.frames, self.heap, self.fams, self.log = (o.pc, o.frames,
                                                            o.heap, o.fams,
                                                            o.log)


def _merge_logs(a, b):
  n = 0
  while n < len(a) and n < len(b) and a[n] is b[n]:
    n += 1
  return a + b[n:]


def merge(a, b):
  if a is None or a.pc is FALSE:
    return b
  if b is None or b.pc is FALSE:
    return a
  pc = Or(a.pc, b.pc)
  c = restrict(a.pc, pc)
  if And(a.pc, b.pc) is not FALSE and c is TRUE:
    c = t.atom(mk('nondet', next(_uid)))

  def j(x, y):
    if x is y:
      return x
    if x is None or x is UNDEF:
      return y if x is None else ITE(c, x, y)
    if y is None:
      return x
    return restrict(ITE(c, x, y), pc)

  s = State()
  s.pc = pc
  s.log = _merge_logs(a.log, b.log)
  for f in set(a.frames) | set(b.frames):
    fa, fb = a.frames.get(f), b.frames.get(f)
    if fa is None or fb is None:
      s.frames[f] = dict(fa if fb is None else fb)
    else:
      s.frames[f] = {
          k: j(fa.get(k, UNDEF), fb.get(k, UNDEF))
          for k in list(fa) + [k for k in fb if k not in fa]
      }
  for o in list(a.heap) + [o for o in b.heap if o not in a.heap]:
    oa, ob = a.heap.get(o) or SHARED.get(o), b.heap.get(o) or SHARED.get(o)
    if oa is None or ob is None or oa is ob:
      s.heap[o] = oa or ob
    else:
      comps = {
          k: j(oa.comps.get(k, UNDEF), ob.comps.get(k, UNDEF))
          for k in list(oa.comps) + [k for k in ob.comps if k not in oa.comps]
      }
      s.heap[o] = Obj(oa.kind, oa.info, comps, oa.fam)
  for f in set(a.fams) | set(b.fams):
    s.fams[f] = j(a.fams.get(f), b.fams.get(f))
  return s


_uid = itertools.count()
SHARED = {}  # the objects that importing the modules allocates


def mutable(node):
  """Whether an expression may make an object that can be changed."""
  if isinstance(node, ast.Lambda):
    return False
  return isinstance(node, (ast.Call, ast.List, ast.Dict, ast.Set, ast.ListComp,
                           ast.DictComp, ast.SetComp)) or any(
                               mutable(x) for x in ast.iter_child_nodes(node))


def filled(x, other):
  """The value x, and other() where it has not been assigned."""
  if x is UNDEF:
    return other()
  if x.op != 'ite':
    return x
  a, b = (filled(y, other) for y in x.args[1:])
  return x if a is x.args[1] and b is x.args[2] else ITE(t.atom(x.args[0]), a, b)


def assigned(x):
  """Whether a variable with the value x has been assigned."""
  if x.op != 'ite':
    return t.boolean(x is not UNDEF)
  return ITE(t.atom(x.args[0]), *(assigned(y) for y in x.args[1:]))


def unrelated(a, b):
  """Whether the types exclude that two values are the same object."""
  if not (isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0] ==
          'cls'):
    return False
  return a[1] not in b[1].mro() and b[1] not in a[1].mro()


class Outs:
  __slots__ = ('fall', 'ret', 'brk', 'cont', 'exc', 'broke')

  def __init__(self):
    self.fall, self.ret, self.brk, self.cont, self.exc = None, [], [], [], []
    self.broke = False  # some break ended the loop


def _breaks(body):
  """Whether a break in these statements ends the loop they belong to."""
  for x in body:
    if isinstance(x, ast.Break):
      return True
    if isinstance(x, (ast.For, ast.While)):
      if _breaks(x.orelse):
        return True
    elif isinstance(x, (ast.FunctionDef, ast.ClassDef)):
      continue
    elif any(_breaks(getattr(x, f, ())) for f in (
        'body', 'orelse', 'finalbody')) or any(
            _breaks(h.body) for h in getattr(x, 'handlers', ())):
      return True
  return False


class _Flag(ast.NodeTransformer):
  """Sets a flag before the breaks of one loop."""

  def __init__(self, name):
    self.name = name

  def visit_For(self, x):
    x.orelse = [z for y in x.orelse for z in _list(self.visit(y))]
    return x

  visit_While = visit_For

  def visit_FunctionDef(self, x):
    return x

  visit_ClassDef = visit_Lambda = visit_FunctionDef

  def visit_Break(self, x):
    return [_set(self.name, True, x), x]


def _list(x):
  return x if isinstance(x, list) else [x]


def _set(name, value, at):
  return ast.fix_missing_locations(ast.copy_location(ast.Assign(
      [ast.Name(name, ast.Store())], ast.Constant(value)), at))


_desugared = {}


def _without_else(s):
  """A loop whose else clause is an if statement after it."""
  if id(s) not in _desugared:
    name = f'<loop {s.lineno}:{s.col_offset} ended by break>'
    loop = copy.deepcopy(s)
    loop.body = [z for y in loop.body for z in _list(_Flag(name).visit(y))]
    after, loop.orelse = loop.orelse, []
    cond = ast.If(ast.UnaryOp(ast.Not(), ast.Name(name, ast.Load())), after, [])
    _desugared[id(s)] = s, [_set(name, False, s), loop,
                            ast.fix_missing_locations(
                                ast.copy_location(cond, s))]
  return _desugared[id(s)][1]


class Lost(AnalysisError):
  pass


OBSERVERS = {
    'get_num_units', 'calculate_score', 'transform', 'has_enough_samples',
    'calculate_cs_width', 'predict', 'predict_proba', 'x_support', 'z_support',
    'support_size', '__len__', '__getitem__', 'get_params', '_phi', 'k_fold_'
}
RET_TYPES = {
    'get_num_units': 'int', 'calculate_score': 'arr1', 'transform': 'arr2',
    'has_enough_samples': 'bool', 'calculate_cs_width': 'num',
    'predict': 'arr1', 'predict_proba': 'arr2', 'support_size': 'int',
    'z_support': ('list', 'arr1'), 'x_support': ('list', None),
    '__len__': 'int', 'ci': ('tuple', 'num'), 'var_est': 'num', 'cost': 'num',
    'ate': 'num', 'num_pulled': 'int', 'name': 'str', 'n_units': 'int',
    'n_features': 'int', 'cov': 'arr2', 'exp': 'arr1', 'rsp': 'arr1',
}


class Interp:
  MAX_DEPTH = 40

  def __init__(self, prog, opaque=(), implicit_exc=False, stubs=None):
    self.stubs = stubs or {}
    self.stubbed = set()
    self.arrays_changed, self.changed_args = [], []
    self.prog = prog
    self.opaque = {prog.cls(c) if isinstance(c, str) else c for c in opaque}
    self.implicit_exc = implicit_exc
    self.funcs = {}  # uid -> (module, node, defining class)
    self.func_uid = {}
    self.fparent = {}  # frame id -> (parent frame id, module, func node, cls)
    self.stack = []  # inlined function nodes
    self.excs = [[]]  # sinks of exceptional outcomes
    self.loop_tmps = []
    self.where = ('?', 0, '?')
    self.analysed = set()  # functions evaluated
    self.notes = []  # assumptions used
    self.calls = 0
    self.globals_memo = {}
    self.shared, self.shared_frames = {}, {}
    self.decorated = {}  # what stands for functions with decorators
    self.immutable = self._immutable_attrs()
    self.path = []  # call sites and unrolled iterations leading here
    self.sites = {}
    from lib import Lib
    self.lib = Lib()

  # ------------------------------------------------------------- program facts

  def _immutable_attrs(self):
    """Attributes that no code of the package assigns outside a constructor."""
    written, inits = set(), set()
    for m in self.prog.modules.values():
      for fn in ast.walk(m.tree):
        if not isinstance(fn, ast.FunctionDef):
          continue
        for n in ast.walk(fn):
          if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
            (inits if fn.name == '__init__' else written).add(n.attr)
    return inits - written

  def ordinal(self, key):
    """The number of the current site among those computing the same thing."""
    site = tuple(self.path)
    l = self.sites.setdefault(key, [])
    if site not in l:
      l.append(site)
    return l.index(site)

  def note(self, s):
    if s not in self.notes:
      self.notes.append(s)

  # -------------------------------------------------------------------- values

  def alloc(self, st, kind, info=None, **comps):
    oid = next(_uid)
    st.heap[oid] = Obj(kind, info, comps)
    return mk('ref', oid)

  def new_list(self, st, content):
    return self.alloc(st, 'list', content=t.recat('list', content))

  def obj(self, st, r):
    if r.op in ('ref', 'fref'):
      return st.heap.get(r.args[0])
    return None

  def getc(self, st, r, name):
    o = self.obj(st, r)
    v = o.comps.get(name)
    if v is None:
      return None
    if r.op == 'fref':
      return t.select(v, r.args[1])
    return v

  def setc(self, st, r, name, v):
    o = self.obj(st, r)
    if r.op == 'fref':
      old = o.comps.get(name, mk('famempty'))
      v = t.store(old, r.args[1], v)
    st.heap[r.args[0]] = o.put(name, v)

  def kind(self, st, v):
    o = self.obj(st, v)
    return o.kind if o else None

  def split(self, st, v, fn):
    """Applies fn(state, leaf) to the alternatives of a conditional value."""
    v = restrict(v, st.pc) if v.op == 'ite' else v
    if v.op != 'ite':
      return fn(st, v)
    a = t.atom(v.args[0])
    s1, s2 = st.copy(And(st.pc, a)), st.copy(And(st.pc, Not(a)))
    r1 = self.split(s1, v.args[1], fn) if s1.pc is not FALSE else None
    r2 = self.split(s2, v.args[2], fn) if s2.pc is not FALSE else None
    if r1 is None or s1.pc is FALSE:
      st.take(s2)
      return r2 if r2 is not None else BOTTOM
    if r2 is None or s2.pc is FALSE:
      st.take(s1)
      return r1
    m = merge(s1, s2)
    st.take(m)
    return ITE(a, r1, r2)

  def needs_split(self, st, v):
    return v.op == 'ite' and any(
        x.op in ('ref', 'fref', 'func', 'closure', 'bound', 'class', 'defaulted')
        for x in t.leafset(v))

  def content(self, st, v):
    """The sequence held by a list object, or the sequence term itself."""
    if v.op == 'ite':
      return ITE(
          t.atom(v.args[0]), self.content(st, v.args[1]),
          self.content(st, v.args[2]))
    k = self.kind(st, v)
    if k in ('list', 'set'):
      return self.getc(st, v, 'content')
    if k == 'dict':
      return self.getc(st, v, 'keys')
    return v

  def snap(self, st, v, depth=0):
    """A pure value: the contents of the objects reachable from v."""
    if depth > 6:
      return v
    if v.op == 'ite':
      return ITE(
          t.atom(v.args[0]), self.snap(st, v.args[1], depth),
          self.snap(st, v.args[2], depth))
    k = self.kind(st, v)
    if k in ('list', 'set'):
      return self.snap(st, self.getc(st, v, 'content'), depth + 1)
    if k == 'inst' and v.op in ('ref', 'fref'):
      o = self.obj(st, v)
      if o.info.name == 'ExpData':
        fs = [(n, self.snap(st, self.getc(st, v, n), depth + 1))
              for n in sorted(o.comps)]
        return mk('snap', o.info.qual, tuple(fs))
      return v
    if v.op == 'seq':
      return seq(v.args[0], [self.snap(st, x, depth + 1) for x in v.args[1]])
    if v.op == 'cat':
      return t.cat(v.args[0], [self.snap(st, x, depth + 1) for x in v.args[1]])
    if v.op == 'map':
      k = tmp()
      b = t.inst(v, k, 3)
      sb = self.snap(st, b, depth + 1)
      if sb is b:
        return v
      return t.mkmap(v.args[0], v.args[1], t.inst(v, k, 2), sb, k)
    return v

  # ------------------------------------------------------------------ events

  def event(self, st, kind, **d):
    st.log = st.log + (Event(kind, st.pc, d, self.where),)

  def throw(self, st, cond, exc):
    """The states where cond holds leave with an exception."""
    pc = And(st.pc, cond)
    if pc is FALSE:
      return
    s = st.copy(pc)
    self.excs[-1].append((s, exc, self.where))
    st.pc = And(st.pc, Not(cond))

  # --------------------------------------------------------------- name lookup

  def local_names(self, node):
    r = getattr(node, '_locals', None)
    if r is not None:
      return r
    names, outer = set(), set()
    a = node.args
    for p in a.posonlyargs + a.args + a.kwonlyargs:
      names.add(p.arg)
    for p in (a.vararg, a.kwarg):
      if p:
        names.add(p.arg)

    def walk(n):
      for c in ast.iter_child_nodes(n):
        if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
          names.add(c.name)
          continue
        if isinstance(c, ast.Lambda):
          continue
        if isinstance(c, (ast.ListComp, ast.SetComp, ast.DictComp,
                          ast.GeneratorExp)):
          for x in ast.walk(c):
            if isinstance(x, ast.NamedExpr):
              names.add(x.target.id)
          continue
        if isinstance(c, (ast.Global, ast.Nonlocal)):
          outer.update(c.names)
        if isinstance(c, ast.Name) and isinstance(c.ctx, (ast.Store, ast.Del)):
          names.add(c.id)
        if isinstance(c, (ast.Import, ast.ImportFrom)):
          for al in c.names:
            names.add((al.asname or al.name).split('.')[0])
        if isinstance(c, ast.ExceptHandler) and c.name:
          names.add(c.name)
        walk(c)

    if isinstance(node, ast.Lambda):
      walk(ast.Expression(node.body))
    else:
      for s in node.body:
        walk(ast.Module([s], []))
    node._locals = names - outer
    return node._locals

  def lookup(self, st, fid, name):
    f = fid
    while f is not None:
      fr = st.frames.get(f)
      if fr is not None and name in fr:
        v = fr[name]
        return v
      f = self.fparent[f][0]
    mod = self.fparent[fid][1]
    return self.global_name(mod, name)

  def global_name(self, mod, name):
    if name in mod.imports:
      return self.dotted_value(mod.imports[name])
    if name in mod.classes:
      return mk('class', mod.classes[name].qual)
    if name in mod.funcs:
      return self.mkfunc(mod, mod.funcs[name], None, None)
    if name in mod.consts:
      key = (mod.name, name)
      return self.once(key, mod, mod.consts[name])
    return mk('builtin', name)

  def once(self, key, mod, node):
    """A value that is computed when a module is imported.

    What it allocates is in SHARED, and in every state that was made after.
    """
    if key not in self.globals_memo:
      self.globals_memo[key] = t.lost('recursive global')
      st = State()
      st.heap.update(self.shared)
      fid = self.new_frame(st, None, mod, None, None)
      v = self.eval(node, st, fid)
      if mutable(node):
        new = {r: o for r, o in st.heap.items() if r not in self.shared}
        self.shared.update(new)
        SHARED.update(new)
      else:
        v = self.snap(st, v)
      self.globals_memo[key] = v
    return self.globals_memo[key]

  def imported(self, st):
    """Adds what importing the modules allocates to a state."""
    for m in self.prog.modules.values():
      for name, node in m.consts.items():
        if mutable(node):
          self.once((m.name, name), m, node)
      for cls in m.classes.values():
        for name, node in cls.attrs.items():
          if mutable(node) and not cls.is_enum:
            self.once((cls.qual, name), m, node)
        for f in cls.methods.values():
          self.defaults_of(m, f)
          self.decorate(m, f, cls)
      for f in m.funcs.values():
        self.defaults_of(m, f)
        self.decorate(m, f, None)
    st.heap.update(self.shared)
    for fid, vs in self.shared_frames.items():
      st.frames[fid] = dict(vs)

  def decorate(self, m, f, cls):
    """Applies the decorators of the package that a function has."""
    ds = [d for d in f.decorator_list if (self.prog.dotted(
        m, d.func if isinstance(d, ast.Call) else d) or '').startswith(
            self.prog.PKG + '.')]
    if not ds:
      return
    v = self.mkfunc(m, f, None, cls)
    uid = v.args[0]
    if uid in self.decorated:
      return
    self.funcs[len(self.funcs)] = self.funcs[uid]
    w = mk('func', len(self.funcs) - 1, -1)
    st = State()
    st.pc = TRUE
    st.heap.update(self.shared)
    fid = self.new_frame(st, None, m, None, None)
    for d in reversed(ds):
      w = self.call(st, self.eval(d, st, fid), [w], {})
    if w.op not in ('func', 'closure', 'defaulted', 'partial'):
      raise AnalysisError(f'decorators of {f.name}')
    self.decorated[uid] = w
    new = {r: o for r, o in st.heap.items() if r not in self.shared}
    self.shared.update(new)
    SHARED.update(new)
    self.shared_frames.update(st.frames)


  def defaults_of(self, m, f):
    for d in f.args.defaults + f.args.kw_defaults:
      if d is not None and mutable(d):
        self.once(('default', id(d)), m, d)

  def dotted_value(self, d):
    r = self.prog.resolve_dotted(d)
    if r is None:
      return self.ext_const(d)
    k, x = r
    if k == 'mod':
      return mk('mod', x.name)
    if k == 'class':
      return mk('class', x.qual)
    if k == 'func':
      return self.mkfunc(x[0], x[1], None, None)
    if k == 'const':
      return self.global_name(x[0], x[1])
    if k == 'ext':
      return self.ext_const(x)
    return mk('ext', d)

  CONSTS = {
      'numpy.inf': t.INF, 'numpy.nan': t.NAN, 'numpy.pi': t.PI,
      'math.inf': t.INF, 'math.nan': t.NAN, 'math.pi': t.PI,
      'numpy.newaxis': NONE, 'numpy.Inf': t.INF, 'numpy.NaN': t.NAN,
  }

  def ext_const(self, d):
    return self.CONSTS.get(d) or mk('ext', d)

  def mkfunc(self, mod, node, fid, cls):
    key = (id(node), cls.qual if cls else None)
    if key not in self.func_uid:
      u = len(self.funcs)
      self.func_uid[key] = u
      self.funcs[u] = (mod, node, cls)
    return mk('func', self.func_uid[key], fid if fid is not None else -1)

  def new_frame(self, st, parent, mod, node, cls):
    fid = next(_uid)
    st.frames[fid] = {}
    self.fparent[fid] = (parent, mod, node, cls)
    return fid

  # ----------------------------------------------------------------- functions

  def func_name(self, f):
    mod, node, cls = self.funcs[f]
    n = getattr(node, 'name', '<lambda>')
    return f'{mod.name}.{cls.name + "." if cls else ""}{n}'

  def call(self, st, f, args, kw, node=None):
    """Calls a function value; returns its value in the updated state."""
    if st.pc is FALSE:
      return BOTTOM
    if f.op == 'ite':
      return self.split(st, f, lambda s, g: self.call(s, g, args, kw, node))
    if f.op == 'func':
      return self.inline(st, f.args[0], f.args[1], None, args, kw)
    if f.op == 'closure':
      return self.inline(st, f.args[0], None, dict(f.args[1]), args, kw)
    if f.op == 'bound':
      return self.call(st, f.args[0], [f.args[1]] + list(args), kw, node)
    if f.op == 'class':
      return self.instantiate(st, self.prog.classes[f.args[0]], args, kw)
    if f.op == 'xmeth':
      return self.lib.method(self, st, f.args[0], f.args[1], args, kw)
    if f.op == 'defaulted':
      g = f.args[0]
      if g.op == 'func':
        return self.inline(st, g.args[0], g.args[1], None, args, kw, dict(f.args[1]))
      return self.inline(st, g.args[0], None, dict(g.args[1]), args, kw,
                         dict(f.args[1]))
    if f.op == 'partial':
      return self.call(st, f.args[0], list(f.args[1]) + list(args),
                       {**dict(f.args[2]), **kw}, node)
    if f.op == 'builtin':
      return self.lib.builtin(self, st, f.args[0], args, kw)
    if f.op == 'ext':
      return self.lib.external(self, st, f.args[0], args, kw)
    if f is BOTTOM:
      return BOTTOM
    if f.op == 'typemeth' and args and args[0] is f.args[0]:
      return self.call(st, self.getattr(st, args[0], f.args[1]), args[1:], kw, node)
    o = self.obj(st, f)
    if o is not None and o.kind == 'inst':
      c, m = o.info.find('__call__')
      if m is not None:
        return self.call(st, mk('bound', self.mkfunc(c.module, m, None, c), f),
                         args, kw, node)
    return self.opaque_call(st, f, args, kw)

  def opaque_call(self, st, f, args, kw):
    """A call of an unknown function value: a fresh result."""
    pa = tuple(self.snap(st, a) for a in args)
    pk = tuple(sorted((k, self.snap(st, v)) for k, v in kw.items()))
    rt = f.ty[1] if isinstance(f.ty, tuple) and f.ty[0] == 'callable' else None
    r = mk('callres', self.ordinal(('callf', f, pa, pk)), f, pa, pk, tuple(self.loop_tmps),
           ty=None if isinstance(rt, tuple) and rt[0] == 'cls' else rt)
    self.event(st, 'callf', f=f, args=pa, kw=dict(pk), result=r)
    self.may_raise(st, 'callf')
    if isinstance(rt, tuple) and rt[0] == 'cls':
      c = rt[1]
      if c not in self.opaque:
        v = self.symbolic(st, rt, None, base=r)
        return v
      return mk('callres', *r.args, ty=rt)
    return r

  def may_raise(self, st, what):
    if self.implicit_exc:
      self.throw(st, t.atom(mk('exc', next(_uid), tuple(self.loop_tmps))),
                 'implicit:' + what)

  def symbolic(self, st, ty, name, base=None):
    """A symbolic input of the given type."""
    if isinstance(ty, tuple) and ty[0] == 'cls' and ty[1].name == 'ExpData' and \
        ty[1] not in self.opaque:
      b = base if base is not None else sym(name, ty=ty)
      g = lambda f, ty: mk('app', 'field:' + f, (b,), (), ty=ty)
      return self.instantiate(
          st, ty[1], [g('cov', 'arr2'), g('exp', 'arr1'), g('rsp', 'arr1')], {})
    return sym(name, ty=ty)

  def inline(self, st, uid, fid, env, args, kw, defaults=()):
    mod, node, cls = self.funcs[uid]
    if len(self.stack) > self.MAX_DEPTH:
      raise AnalysisError('call depth exceeded')
    name = self.func_name(uid)
    if cls is not None and node.name in self.stubs and \
        isinstance(node, ast.FunctionDef):
      self.stubbed.add(node.name)
      return self.stubs[node.name](self, st, args, kw)
    if cls is None and name in self.stubs and isinstance(node, ast.FunctionDef):
      self.stubbed.add(name)
      return self.stubs[name](self, st, args, kw)
    if isinstance(node, ast.FunctionDef) and any(
        ast.unparse(d).split('.')[-1] == 'contextmanager'
        for d in node.decorator_list):
      return mk('genctx', uid, None if fid in (None, -1) else fid, tuple(args),
                tuple(sorted(kw.items())))
    if uid in self.decorated:
      return self.call(st, self.decorated[uid], args, kw)
    if sum(1 for n in self.stack if n is node) >= 1 and \
        not self._concrete(args):
      return mk('app', 'rec:' + name, tuple(self.snap(st, a) for a in args), ())
    self.analysed.add(name)
    self.calls += 1
    new = self.new_frame(st, None if fid in (None, -1) else fid, mod, node, cls)
    fr = st.frames[new]
    if env:
      fr.update(env)
    if not self.bind(st, new, node, args, kw, fid, defaults):
      return t.lost('argument binding of ' + name)
    saved = self.where
    self.stack.append(node)
    try:
      if isinstance(node, ast.Lambda):
        self.where = (mod.name, node.lineno, name)
        v = self.eval(node.body, st, new)
      else:
        outs = self.block(node.body, st, new)
        rets = list(outs.ret)
        if outs.fall is not None and outs.fall.pc is not FALSE:
          rets.append((outs.fall, NONE))
        self.excs[-1].extend((s.copy() if s is st else s, n, w)
                             for s, n, w in outs.exc)
        v = self.join_returns(st, rets)
        self.write_back(st, new, node)
    finally:
      self.stack.pop()
      self.where = saved
    if st.pc is not FALSE and self.loop_tmps:
      v = self.close_funcs(st, v, new)
    return v

  def write_back(self, st, fid, node):
    """Arguments that the function changed in place."""
    self.changed_args = []
    mine = [(n, old) for f, n, old in self.arrays_changed if f == fid]
    if not mine or st.pc is FALSE or fid not in st.frames:
      return
    bound = alias.rebound(node)
    first = {}
    for n, old in mine:
      first.setdefault(n, old)
    a = node.args
    for p in a.posonlyargs + a.args + a.kwonlyargs:
      if p.arg in first and p.arg not in bound and p.arg in st.frames[fid]:
        self.changed_args.append((first[p.arg], st.frames[fid][p.arg]))
    self.arrays_changed = [x for x in self.arrays_changed if x[0] != fid]

  def _concrete(self, args):
    nums = [a for a in args if a.op == 'num']
    return bool(nums) and len(self.stack) < 25

  def join_returns(self, st, rets):
    rets = [(s, v) for s, v in rets if s is not None and s.pc is not FALSE]
    if not rets:
      st.pc = FALSE
      return BOTTOM
    s, v = rets[0]
    for s2, v2 in rets[1:]:
      pc = Or(s.pc, s2.pc)
      c = restrict(s.pc, pc)
      m = merge(s, s2)
      v = restrict(ITE(c, v, v2), pc)
      s = m
    st.take(s)
    return v

  def close_funcs(self, st, v, fid):
    """Closures created per loop iteration capture their variables by value."""
    todo = {}
    for x in t.subterms(v):
      if x.op == 'func' and x.args[1] == fid:
        mod, node, cls = self.funcs[x.args[0]]
        free = {
            n.id for n in ast.walk(node)
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)
        }
        env = []
        f = fid
        while f is not None and f in st.frames:
          for n in sorted(free):
            if n in st.frames[f] and n not in dict(env):
              val = st.frames[f][n]
              if x not in list(t.subterms(val)):
                env.append((n, val))
          f = self.fparent[f][0]
        todo[x] = mk('closure', x.args[0], tuple(env))
    return t.replace(v, todo) if todo else v

  def bind(self, st, fid, node, args, kw, defid, defaults=()):
    a = node.args
    fr = st.frames[fid]
    pos = a.posonlyargs + a.args
    kw = dict(kw)
    args = list(args)
    for i, p in enumerate(pos):
      if i < len(args):
        fr[p.arg] = args[i]
      elif p.arg in kw:
        fr[p.arg] = kw.pop(p.arg)
      else:
        j = i - (len(pos) - len(a.defaults))
        if j < 0:
          return False
        fr[p.arg] = defaults[p.arg] if p.arg in defaults else self.default(
            st, fid, a.defaults[j])
    if len(args) > len(pos):
      if not a.vararg:
        return False
      fr[a.vararg.arg] = seq('tuple', args[len(pos):])
    elif a.vararg:
      fr[a.vararg.arg] = seq('tuple', [])
    for p, d in zip(a.kwonlyargs, a.kw_defaults):
      if p.arg in kw:
        fr[p.arg] = kw.pop(p.arg)
      elif d is not None:
        fr[p.arg] = defaults[p.arg] if p.arg in defaults else self.default(
            st, fid, d)
      else:
        return False
    if a.kwarg:
      fr[a.kwarg.arg] = self.new_dict(st, [(string(k), v) for k, v in kw.items()])
    elif kw:
      return False
    # parameter types for values that have none
    return True

  def default(self, st, fid, d):
    if ('default', id(d)) in self.globals_memo:
      return self.globals_memo['default', id(d)]
    return self.eval(d, st, fid)

  def new_dict(self, st, items):
    fam = FAMEMPTY
    keys = []
    for k, v in items:
      fam = t.store(fam, k, v)
      if k not in keys:
        keys.append(k)
    return self.alloc(st, 'dict', keys=seq('list', keys), fam=fam)

  def instantiate(self, st, cls, args, kw):
    if cls.is_enum:
      return t.lost('enum lookup')
    if cls in self.opaque:
      pa = tuple(self.snap(st, a) for a in args)
      pk = tuple(sorted((k, self.snap(st, v)) for k, v in kw.items()))
      c, init = cls.find('__init__')
      if init is not None:
        pa, pk = self.normal_args(st, init, pa, dict(pk), method=True)
      return self.alloc(
          st, 'ext', cls, ctor=mk('app', 'new:' + cls.qual, pa, pk),
          state=mk('app', 'fresh', (), ()))
    r = self.alloc(st, 'inst', cls)
    c, init = cls.find('__init__')
    if init is not None:
      self.call(st, mk('bound', self.mkfunc(c.module, init, None, c), r), args,
                kw)
    elif cls.dataclass or cls.fields:
      names = []
      for k in reversed(cls.mro()):
        names += [f for f in k.fields if f[0] not in [n[0] for n in names]]
      for i, (n, _, d) in enumerate(names):
        if i < len(args):
          v = args[i]
        elif n in kw:
          v = kw[n]
        elif d is not None:
          fid = self.new_frame(st, None, cls.module, None, None)
          v = self.eval(d, st, fid)
        else:
          return t.lost('dataclass arguments')
        self.setc(st, r, n, v)
    return r

  def normal_args(self, st, node, args, kw, method=False):
    """Positional arguments in the order of a signature, trailing ones named."""
    names = [p.arg for p in node.args.posonlyargs + node.args.args]
    if method:
      names = names[1:]
    out = list(args)
    kw = dict(kw)
    while len(out) < len(names) and names[len(out)] in kw:
      out.append(kw.pop(names[len(out)]))
    return tuple(out), tuple(sorted(kw.items()))

  # --------------------------------------------------------------- expressions

  def eval(self, e, st, fid):
    m = getattr(self, 'e_' + type(e).__name__, None)
    if m is None:
      return t.lost('expression ' + type(e).__name__)
    if hasattr(e, 'lineno'):
      self.where = (self.fparent[fid][1].name, e.lineno, self.where[2]
                    if not self.stack else getattr(self.stack[-1], 'name',
                                                   '<lambda>'))
    if st.pc is FALSE:
      return BOTTOM
    return m(e, st, fid)

  def e_Constant(self, e, st, fid):
    v = e.value
    if v is None:
      return NONE
    if v is True:
      return TRUE
    if v is False:
      return FALSE
    if v is Ellipsis:
      return t.ELLIPSIS
    if isinstance(v, str):
      return string(v)
    if isinstance(v, int):
      return num(v)
    if isinstance(v, float):
      if v != v:
        return t.NAN
      if v in (float('inf'), float('-inf')):
        return t.INF if v > 0 else t.neg(t.INF)
      return num(repr(v))
    return t.lost('constant')

  def e_Name(self, e, st, fid):
    v = self.lookup(st, fid, e.id)
    if v is UNDEF:
      return t.lost('undefined ' + e.id)
    if v.op == 'ite':
      v = restrict(v, st.pc)
    return v

  def e_NamedExpr(self, e, st, fid):
    v = self.eval(e.value, st, fid)
    self.assign(e.target, v, st, fid)
    return v

  def e_JoinedStr(self, e, st, fid):
    r = string('')
    for p in e.values:
      if isinstance(p, ast.Constant):
        x = string(p.value)
      else:
        v = self.eval(p.value, st, fid)
        if p.format_spec is not None or p.conversion not in (-1, 115):
          x = mk('app', 'format', (self.snap(st, v),), (), ty='str')
        else:
          x = self.lib.to_str(self, st, v)
      r = t.add(r, x)
    return r

  def e_Tuple(self, e, st, fid):
    return self._elems(e, st, fid, 'tuple')

  def _elems(self, e, st, fid, kind):
    parts = []
    for x in e.elts:
      if isinstance(x, ast.Starred):
        parts.append(t.recat(kind, self.content(st, self.eval(x.value, st, fid))))
      else:
        parts.append(seq(kind, [self.eval(x, st, fid)]))
    return t.cat(kind, parts) if len(parts) != 1 else parts[0]

  def e_List(self, e, st, fid):
    c = self._elems(e, st, fid, 'list')
    return self.alloc(st, 'list', content=c)

  def e_Set(self, e, st, fid):
    return self.alloc(st, 'set', content=self._elems(e, st, fid, 'list'))

  def e_Dict(self, e, st, fid):
    r = self.new_dict(st, [])
    for k, v in zip(e.keys, e.values):
      if k is None:
        self.lib.dict_update(self, st, r, self.eval(v, st, fid))
      else:
        kk = self.eval(k, st, fid)
        self.dict_set(st, r, kk, self.eval(v, st, fid))
    return r

  def e_Lambda(self, e, st, fid):
    return self.defaulted(self.mkfunc(self.fparent[fid][1], e, fid, None), e, st,
                          fid)

  def defaulted(self, f, node, st, fid):
    """A function with the values its defaults have where it is defined."""
    a = node.args
    pos = a.posonlyargs + a.args
    ds = list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + [
        (p, d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
    ds = [(p.arg, self.eval(d, st, fid)) for p, d in ds
          if not isinstance(d, ast.Constant)]
    return mk('defaulted', f, tuple(ds)) if ds else f

  def e_IfExp(self, e, st, fid):
    c = self.cond(e.test, st, fid)
    return self.fork(st, c, lambda s: self.eval(e.body, s, fid),
                     lambda s: self.eval(e.orelse, s, fid))

  def fork(self, st, c, f, g):
    c = restrict(c, st.pc)
    if c is TRUE:
      return f(st)
    if c is FALSE:
      return g(st)
    s1, s2 = st.copy(And(st.pc, c)), st.copy(And(st.pc, Not(c)))
    if s1.pc is FALSE:
      st.take(s2)
      return g(st)
    if s2.pc is FALSE:
      st.take(s1)
      return f(st)
    v1, v2 = f(s1), g(s2)
    if s1.pc is FALSE:
      st.take(s2)
      return v2
    if s2.pc is FALSE:
      st.take(s1)
      return v1
    st.take(merge(s1, s2))
    return ITE(c, v1, v2)

  def cond(self, e, st, fid):
    return self.truthv(st, self.eval(e, st, fid))

  def truthv(self, st, v):
    if v.op == 'ite':
      return ITE(
          t.atom(v.args[0]), self.truthv(st, v.args[1]),
          self.truthv(st, v.args[2]))
    k = self.kind(st, v)
    if k in ('list', 'set', 'dict'):
      return Not(t.eq(t.length(self.content(st, v)), t.ZERO))
    if k == 'inst':
      c, m = self.obj(st, v).info.find('__bool__')
      c2, m2 = self.obj(st, v).info.find('__len__')
      if m is not None:
        return t.truth(
            self.call(st, mk('bound', self.mkfunc(c.module, m, None, c), v), [],
                      {}))
      if m2 is not None:
        return Not(
            t.eq(
                self.call(st,
                          mk('bound', self.mkfunc(c2.module, m2, None, c2), v),
                          [], {}), t.ZERO))
      return TRUE
    if k == 'ext':
      return TRUE
    return t.truth(v)

  def e_BoolOp(self, e, st, fid):
    v = self.eval(e.values[0], st, fid)
    for x in e.values[1:]:
      c = self.truthv(st, v)
      v0 = v
      if isinstance(e.op, ast.And):
        v = self.fork(st, c, lambda s: self.eval(x, s, fid), lambda s: v0)
      else:
        v = self.fork(st, c, lambda s: v0, lambda s: self.eval(x, s, fid))
    return v

  def e_UnaryOp(self, e, st, fid):
    v = self.eval(e.operand, st, fid)
    if isinstance(e.op, ast.Not):
      return Not(self.truthv(st, v))
    if isinstance(e.op, ast.USub):
      return t.neg(v)
    if isinstance(e.op, ast.UAdd):
      return v
    if isinstance(e.op, ast.Invert):
      return self.lib.invert(v)
    return t.lost('unary')

  def e_BinOp(self, e, st, fid):
    a = self.eval(e.left, st, fid)
    b = self.eval(e.right, st, fid)
    return self.binop(st, e.op, a, b)

  def binop(self, st, op, a, b):
    if self.needs_split(st, a):
      return self.split(st, a, lambda s, x: self.binop(s, op, x, b))
    if self.needs_split(st, b):
      return self.split(st, b, lambda s, x: self.binop(s, op, a, x))
    la, lb = self.kind(st, a) == 'list', self.kind(st, b) == 'list'
    if la or lb:
      ca, cb = self.content(st, a), self.content(st, b)
      if isinstance(op, ast.Add) and (la and lb):
        return self.new_list(st, t.cat('list', [t.recat('list', ca),
                                                t.recat('list', cb)]))
      if isinstance(op, ast.Add) and t.is_listish(cb if la else ca) and not (
          (cb if la else ca).op in ('seq', 'map') and
          (cb if la else ca).args[0] == 'array'):
        return self.new_list(st, t.cat('list', [ca, cb]))
      if isinstance(op, ast.Mult) and la != lb:
        return self.new_list(
            st, t.repeat_seq(ca, b) if la else t.repeat_seq(cb, a))
      if self.kind(st, a) == 'list':
        a = t.recat('array', ca)
      if self.kind(st, b) == 'list':
        b = t.recat('array', cb)
    for x in (a, b):
      if x.op in ('ref', 'fref') and self.kind(st, x) in ('set', 'dict'):
        return self.lib.setop(self, st, op, a, b)
    if isinstance(op, ast.Add):
      return t.add(a, b)
    if isinstance(op, ast.Sub):
      return t.sub(a, b)
    if isinstance(op, ast.Mult):
      for x, y in ((a, b), (b, a)):
        if x is t.ZERO and y.op == 'draw' and 'size' in dict(y.args[3]):
          return self.lib.full(dict(y.args[3])['size'], t.ZERO)
      return t.mul(a, b)
    if isinstance(op, ast.Div):
      return t.div(a, b)
    if isinstance(op, ast.Pow):
      return t.power(a, b)
    if isinstance(op, ast.MatMult):
      return self.lib.dot(a, b)
    if isinstance(op, ast.Mod):
      if a.op == 'str':
        r = self.lib.percent(self, st, a.args[0], self.snap(st, b))
        return r or mk('app', 'format', (a, self.snap(st, b)), (), ty='str')
      return self.lib.mod(a, b)
    if isinstance(op, ast.FloorDiv):
      return self.lib.floordiv(a, b)
    if isinstance(op, ast.BitAnd):
      return self.lib.logical('and', a, b)
    if isinstance(op, ast.BitOr):
      return self.lib.logical('or', a, b)
    return t.app('op:' + type(op).__name__, a, b)

  def e_Compare(self, e, st, fid):
    left = self.eval(e.left, st, fid)
    r = None
    for op, x in zip(e.ops, e.comparators):
      right = self.eval(x, st, fid)
      c = self.compare(st, op, left, right)
      r = c if r is None else (And(r, c) if t.is_bool(r) and t.is_bool(c) else
                               self.lib.logical('and', r, c))
      left = right
    return r

  def compare(self, st, op, a, b):
    if isinstance(op, (ast.Is, ast.IsNot)):
      r = t.same(a, b)
      return r if isinstance(op, ast.Is) else Not(r)
    if isinstance(op, (ast.In, ast.NotIn)):
      r = self.contains(st, b, a)
      return r if isinstance(op, ast.In) else Not(r)
    ka, kb = self.kind(st, a), self.kind(st, b)
    if ka == 'set' or kb == 'set':
      return self.lib.setcmp(self, st, op, a, b)
    if a.op == 'ite' or b.op == 'ite' or ka == 'list' or kb == 'list':
      a, b = self.content(st, a), self.content(st, b)
    if isinstance(op, ast.Eq):
      return t.eq(a, b)
    if isinstance(op, ast.NotEq):
      return t.bmap(t.eq(a, b), Not)
    if isinstance(op, ast.Lt):
      return t.lt(a, b)
    if isinstance(op, ast.Gt):
      return t.gt(a, b)
    if isinstance(op, ast.LtE):
      return t.le(a, b)
    if isinstance(op, ast.GtE):
      return t.ge(a, b)
    return t.lost('comparison')

  def contains(self, st, box, x):
    if box.op == 'ite':
      return ITE(
          t.atom(box.args[0]), self.contains(st, box.args[1], x),
          self.contains(st, box.args[2], x))
    c = self.content(st, box)
    if box.op == 'str' and x.op == 'str':
      return t.boolean(x.args[0] in box.args[0])
    return t.member(x, c)

  def e_Attribute(self, e, st, fid):
    v = self.eval(e.value, st, fid)
    return self.getattr(st, v, e.attr)

  def getattr(self, st, v, name):
    if v.op == 'ite':
      return self.split(st, v, lambda s, x: self.getattr(s, x, name))
    o = self.obj(st, v)
    if o is not None:
      if o.kind == 'inst':
        x = self.getc(st, v, name)
        if x is not None and not (x.op == 'sel' and x.args[0].op == 'famempty'):
          if x.op != 'ite':
            return x
          x = restrict(x, st.pc)
          if any(name in k.attrs for k in o.info.mro()):
            x = filled(x, lambda: self.class_attr(st, o.info, v, name))
          return x
        return self.class_attr(st, o.info, v, name)
      if o.kind == 'ext':
        x = self.getc(st, v, 'attr:' + name)
        if x is not None:
          return x
        if isinstance(o.info, ClassInfo):
          c, m = o.info.find(name)
          if m is not None and name not in o.info.props:
            return mk('xmeth', v, name)
          return mk('app', 'get:' + name,
                    (self.getc(st, v, 'ctor'), self.getc(st, v, 'state')), (),
                    ty=RET_TYPES.get(name))
        if name.endswith('_') and not name.startswith('__'):
          return mk('app', 'get:' + name,
                    (self.getc(st, v, 'ctor'), self.getc(st, v, 'state')), ())
        return mk('xmeth', v, name)
      return mk('xmeth', v, name)
    if v.op == 'app' and v.args[0] == 'type' and v.args[1][0].op in ('sym', 'idx'):
      return mk('typemeth', v.args[1][0], name)
    if v.op == 'class':
      c = self.prog.classes[v.args[0]]
      if c.is_enum and name in c.attrs:
        return mk('enum', c.qual, name)
      k, m = c.find(name)
      if m is not None:
        return self.mkfunc(k.module, m, None, k)
      for k in c.mro():
        if name in k.attrs:
          if mutable(k.attrs[name]) and not c.is_enum:
            return self.once((k.qual, name), k.module, k.attrs[name])
          f = self.new_frame(st, None, k.module, None, None)
          return self.eval(k.attrs[name], st, f)
      return t.lost('class attribute ' + name)
    if v.op == 'mod':
      m = self.prog.modules[v.args[0]]
      return self.global_name(m, name)
    if v.op == 'ext':
      if v.args[0] == self.prog.PKG or v.args[0].startswith(self.prog.PKG + '.'):
        return self.dotted_value(v.args[0] + '.' + name)
      return self.ext_const(v.args[0] + '.' + name)
    if v.op == 'super':
      cls, selfv = v.args
      c0 = self.prog.classes[cls]
      o = self.obj(st, selfv)
      mro = o.info.mro() if o and o.info else c0.mro()
      mro = mro[mro.index(c0) + 1:] if c0 in mro else c0.mro()[1:]
      for c in mro:
        if name in c.methods:
          f = self.mkfunc(c.module, c.methods[name], None, c)
          if name in c.props:
            return self.call(st, mk('bound', f, selfv), [], {})
          return mk('bound', f, selfv)
      return mk('builtin', 'object.' + name)
    if v.op == 'enum':
      if name == 'name':
        return string(v.args[1])
      if name == 'value':
        c = self.prog.classes[v.args[0]]
        f = self.new_frame(st, None, c.module, None, None)
        return self.eval(c.attrs[v.args[1]], st, f)
    ty = v.ty
    if isinstance(ty, tuple) and ty[0] == 'cls':
      c = ty[1]
      k, m = c.find(name)
      if m is not None and name not in k.props:
        return mk('xmeth', v, name)
      if name in self.immutable:
        return mk('app', 'get:' + name, (v,), (), ty=RET_TYPES.get(name))
      return t.read_attr(v, t.select(self.ost(st), v), name,
                         RET_TYPES.get(name))
    return self.lib.attribute(self, st, v, name)

  def ost(self, st):
    """The state of the abstract objects, by object."""
    f = st.fams.get('ost')
    if f is None:
      f = st.fams['ost'] = mk('fambase', 'ost', 0)
    return f

  def class_attr(self, st, cls, v, name):
    if name == '__class__':
      return mk('class', cls.qual)
    k, m = cls.find(name)
    if m is not None:
      f = self.mkfunc(k.module, m, None, k)
      if name in k.props:
        return self.call(st, mk('bound', f, v), [], {})
      if name in k.static:
        return f
      if name in k.classm:
        return mk('bound', f, mk('class', cls.qual))
      return mk('bound', f, v)
    for k in cls.mro():
      if name in k.attrs:
        if mutable(k.attrs[name]):
          return self.once((k.qual, name), k.module, k.attrs[name])
        f = self.new_frame(st, None, k.module, None, None)
        return self.eval(k.attrs[name], st, f)
    if name == '__dict__':
      return t.lost('__dict__')
    return t.lost(f'attribute {name} of {cls.name}')

  def e_Subscript(self, e, st, fid):
    v = self.eval(e.value, st, fid)
    i = self.eval(e.slice, st, fid)
    return self.getitem(st, v, i)

  def e_Slice(self, e, st, fid):
    f = lambda x: NONE if x is None else self.eval(x, st, fid)
    return t.mkslice(f(e.lower), f(e.upper), f(e.step))

  def getitem(self, st, v, i):
    if v.op == 'ite':
      return self.split(st, v, lambda s, x: self.getitem(s, x, i))
    k = self.kind(st, v)
    if v.op == 'ext':
      return self.lib.index_ext(self, st, v.args[0], i)
    if v.op == 'app' and v.args[0] == 'shape' and i.op == 'num':
      x = v.args[1][0]
      if i.args[0] == 0:
        return t.length(x)
      if i.args[0] == 1:
        return self.lib.cols(x)
      return t.app(f'shape{i.args[0]}', x, ty='int')
    if k == 'list':
      c = self.getc(st, v, 'content')
      if self.kind(st, i) == 'list':
        i = self.content(st, i)
      r = t.idx(c, i)
      if i.op == 'slice':
        return self.new_list(st, r)
      return r
    if k == 'dict':
      return self.dict_get(st, v, i)
    if k == 'inst':
      c, m = self.obj(st, v).info.find('__getitem__')
      if m is None:
        return t.lost('not subscriptable')
      return self.call(st, mk('bound', self.mkfunc(c.module, m, None, c), v),
                       [i], {})
    if k == 'ext':
      return mk('app', 'getitem', (self.getc(st, v, 'ctor'),
                                   self.getc(st, v, 'state'),
                                   self.snap(st, i)), ())
    if isinstance(v.ty, tuple) and v.ty[0] == 'list' and i.op == 'slice':
      return self.new_list(st, t.idx(v, i))
    if isinstance(v.ty, tuple) and v.ty[0] == 'cls':
      return mk('app', 'getitem', (v, t.select(self.ost(st), v), i), (), ty=v.ty)
    if self.kind(st, i) == 'list' or i.op == 'ite':
      i = self.content(st, i)
    if i.op == 'seq' and i.args[0] == 'tuple':
      i = seq('tuple', [self.content(st, x) for x in i.args[1]])
    return t.idx(v, i)

  def dict_get(self, st, d, key):
    fam = self.getc(st, d, 'fam')
    keys = self.getc(st, d, 'keys')
    o = self.obj(st, d)
    if 'dflt' in o.comps:  # defaultdict of fresh objects
      m = t.member(key, keys)
      self.setc(st, d, 'keys',
                ITE(m, keys, t.cat('list', [keys, seq('list', [key])])))
      return t.select(fam, key)
    if o.info is not None:  # defaultdict
      m = t.member(key, keys)

      def missing(s):
        v = self.call(s, o.info, [], {})
        self.dict_set(s, d, key, v)
        return v

      return self.fork(st, m, lambda s: t.select(fam, key), missing)
    v = t.select(fam, key)
    if v.op == 'sel' and v.args[0] is FAMEMPTY and keys.op == 'seq' and all(
        k.op in ('str', 'num') for k in keys.args[1]) and key.op in ('str', 'num'):
      self.throw(st, TRUE, 'KeyError')
      return BOTTOM
    return self.present(v)

  def present(self, v):
    """Drops the alternatives in which a looked-up key is missing."""
    if v.op != 'ite':
      return v
    bad = lambda x: x.op == 'sel' and x.args[0] is FAMEMPTY
    h, l = self.present(v.args[1]), self.present(v.args[2])
    if bad(h):
      self.note('a key that is looked up in a dict is present in it')
      return l
    if bad(l):
      self.note('a key that is looked up in a dict is present in it')
      return h
    return ITE(t.atom(v.args[0]), h, l)

  def dict_set(self, st, d, key, v):
    keys = self.getc(st, d, 'keys')
    fam = self.getc(st, d, 'fam')
    m = t.member(key, keys)
    self.setc(st, d, 'keys',
              ITE(m, keys, t.cat('list', [keys, seq('list', [key])])))
    self.setc(st, d, 'fam', t.store(fam, key, v))

  def e_Call(self, e, st, fid):
    if isinstance(e.func, ast.Name) and e.func.id == 'super':
      args = [self.eval(a, st, fid) for a in e.args]
      f = fid
      while f is not None and self.fparent[f][3] is None:
        f = self.fparent[f][0]
      if f is None:
        return t.lost('super')
      node, cls = self.fparent[f][2], self.fparent[f][3]
      selfv = args[1] if len(args) == 2 else st.frames[f][node.args.args[0].arg]
      return mk('super', cls.qual, selfv)
    fn = self.eval(e.func, st, fid)
    args = []
    for a in e.args:
      if isinstance(a, ast.Starred):
        c = self.content(st, self.eval(a.value, st, fid))
        if c.op != 'seq':
          if fn.op == 'ext' or fn.op == 'builtin':
            args.append(mk('star', c))
            continue
          args.append(t.lost('star argument'))
          continue
        args += list(c.args[1])
      else:
        args.append(self.eval(a, st, fid))
    kw = {}
    for k in e.keywords:
      v = self.eval(k.value, st, fid)
      if k.arg is None:
        keys = self.content(st, v)
        if keys.op != 'seq':
          return t.lost('** argument')
        for kk in keys.args[1]:
          kw[kk.args[0]] = self.dict_get(st, v, kk)
      else:
        kw[k.arg] = v
    self.where = (self.fparent[fid][1].name, e.lineno,
                  getattr(self.stack[-1], 'name', '<lambda>')
                  if self.stack else '?')
    if self.sorts_array(e, fn, st):
      # an array method that changes its receiver: its variable is rebound
      def rec(f):
        if f.op == 'ite':
          return ITE(t.atom(f.args[0]), rec(f.args[1]), rec(f.args[2]))
        return t.app('sorted', t.recat('list', f.args[0]))
      self.assign(e.func.value, rec(fn), st, fid)
      return NONE
    out = None
    if fn.op == 'ext' and fn.args[0].startswith('numpy.') and 'out' in kw:
      out = [k.value for k in e.keywords if k.arg == 'out'][0]
      old = kw.pop('out')
    self.changed_args = []
    self.path.append(id(e))
    try:
      v = self.call(st, fn, args, kw, e)
    finally:
      self.path.pop()
    done, self.changed_args = self.changed_args, []
    for was, now in done:
      for x in e.args + [k.value for k in e.keywords]:
        p = alias.place(x)
        if p is not None and self.read_place(st, fid, p) is was:
          self.assign(p, now, st, fid)
          self.changed_array(st, fid, p, was, now)
    if out is not None:
      if not alias.storage(out):
        return v if isinstance(out, ast.Constant) else t.lost('out=')
      self.assign(out, v, st, fid)
      self.changed_array(st, fid, out, old, v)
      return v
    return self.inplace(e, fn, v, st, fid)

  def sorts_array(self, e, fn, st):
    if not isinstance(e.func, ast.Attribute) or e.func.attr != 'sort':
      return False
    def leaves(f):
      if f.op == 'ite':
        return leaves(f.args[1]) and leaves(f.args[2])
      return f.op == 'xmeth' and f.args[1] == 'sort' and self.obj(
          st, f.args[0]) is None
    return leaves(fn)

  def inplace(self, e, fn, v, st, fid):
    """Functions that change an array give its variable a new value."""
    if fn.op == 'ext' and fn.args[0] == 'numpy.random.shuffle' and isinstance(
        e.args[0], (ast.Name, ast.Attribute)):
      a = self.eval(e.args[0], st, fid)
      w = self.lib.draw(self, st, 'numpy.random.permutation', (),
                        {'x': self.lib.arr(self, st, a)})
      if self.kind(st, a) == 'list':
        self.setc(st, a, 'content', w)
      else:
        self.assign(e.args[0], w, st, fid)
      return NONE
    return v

  # comprehensions run as loops that append to a fresh list

  def comp(self, e, st, fid, kind, emit):
    acc = self.new_dict(st, []) if kind == 'dict' else self.alloc(
        st, kind, content=seq('list', []))
    names = set()
    for g in e.generators:
      for n in ast.walk(g.target):
        if isinstance(n, ast.Name):
          names.add(n.id)
    # the targets live in a frame of their own
    new = self.new_frame(st, fid, self.fparent[fid][1], self.fparent[fid][2],
                         None)

    def level(i, s):
      if i == len(e.generators):
        emit(acc, s, new)
        o = Outs()
        o.fall = s
        return o
      g = e.generators[i]
      it = self.eval(g.iter, s, fid if i == 0 else new)

      def body(s2):
        c = TRUE
        for x in g.ifs:
          c = And(c, self.cond(x, s2, new))
        if c is TRUE:
          return level(i + 1, s2)
        s1, s3 = s2.copy(And(s2.pc, c)), s2.copy(And(s2.pc, Not(c)))
        if s1.pc is not FALSE:
          r = level(i + 1, s1)
          s1 = r.fall
        o = Outs()
        o.fall = merge(s1, s3)
        return o

      return self.loop(s, new, g.target, it, body)

    r = level(0, st)
    if r.fall is not None and r.fall is not st:
      st.take(r.fall)
    st.frames.pop(new, None)
    return acc

  def e_ListComp(self, e, st, fid):
    def emit(acc, s, f):
      v = self.eval(e.elt, s, f)
      c = self.getc(s, acc, 'content')
      self.setc(s, acc, 'content', t.cat('list', [c, seq('list', [v])]))
    return self.comp(e, st, fid, 'list', emit)

  e_GeneratorExp = e_ListComp

  def e_SetComp(self, e, st, fid):
    def emit(acc, s, f):
      v = self.eval(e.elt, s, f)
      c = self.getc(s, acc, 'content')
      self.setc(s, acc, 'content', t.cat('list', [c, seq('list', [v])]))
    r = self.comp(e, st, fid, 'set', emit)
    self.setc(st, r, 'content', t.dedup(self.getc(st, r, 'content')))
    return r

  def e_DictComp(self, e, st, fid):
    def emit(acc, s, f):
      k = self.eval(e.key, s, f)
      self.dict_set(s, acc, k, self.eval(e.value, s, f))
    return self.comp(e, st, fid, 'dict', emit)

  # ---------------------------------------------------------------- statements

  def block(self, stmts, st, fid):
    """Executes statements; st is consumed."""
    outs = Outs()
    cur = st
    for s in stmts:
      if cur is None or cur.pc is FALSE:
        cur = None
        break
      self.excs.append(outs.exc)
      if hasattr(s, 'lineno'):
        self.where = (self.fparent[fid][1].name, s.lineno,
                      getattr(self.stack[-1], 'name', '<lambda>')
                      if self.stack else '<module>')
      try:
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
          raise Lost(f'statement {type(s).__name__} at {self.where}')
        r = m(s, cur, fid)
      finally:
        self.excs.pop()
      if r is None:
        continue
      outs.ret += r.ret
      outs.brk += r.brk
      outs.cont += r.cont
      outs.exc += r.exc
      cur = r.fall
    outs.fall = cur if cur is not None and cur.pc is not FALSE else None
    return outs

  def s_Expr(self, s, st, fid):
    if isinstance(s.value, ast.Constant):
      return None
    self.eval(s.value, st, fid)

  def s_Pass(self, s, st, fid):
    return None

  def s_Import(self, s, st, fid):
    for a in s.names:
      n = a.asname or a.name.split('.')[0]
      st.frames[fid][n] = self.dotted_value(a.name if a.asname else n)

  def s_ImportFrom(self, s, st, fid):
    for a in s.names:
      st.frames[fid][a.asname or a.name] = self.dotted_value(
          (s.module or '') + '.' + a.name)

  def s_Global(self, s, st, fid):
    return None

  s_Nonlocal = s_Global

  def s_Delete(self, s, st, fid):
    for x in s.targets:
      if isinstance(x, ast.Name):
        st.frames[fid].pop(x.id, None)
      elif isinstance(x, ast.Subscript):
        v = self.eval(x.value, st, fid)
        i = self.eval(x.slice, st, fid)
        new = self.lib.delitem(self, st, v, i)
        if new is not None:
          if isinstance(x.value, (ast.Name, ast.Attribute)):
            self.assign(self._store_ctx(x.value), new, st, fid)
          else:
            raise Lost('deleted item')
      elif isinstance(x, ast.Attribute):
        v = self.eval(x.value, st, fid)
        self.setattr(st, v, x.attr, t.lost('deleted attribute'))

  def s_FunctionDef(self, s, st, fid):
    v = self.defaulted(self.mkfunc(self.fparent[fid][1], s, fid, None), s, st, fid)
    for d in reversed(s.decorator_list):
      dn = self.prog.dotted(self.fparent[fid][1],
                            d.func if isinstance(d, ast.Call) else d) or ''
      if not dn.startswith('functools') and dn != 'contextlib.contextmanager':
        v = self.call(st, self.eval(d, st, fid), [v], {})
    st.frames[fid][s.name] = v

  def s_Assign(self, s, st, fid):
    v = self.eval(s.value, st, fid)
    for x in s.targets:
      self.assign(x, v, st, fid)

  def s_AnnAssign(self, s, st, fid):
    if s.value is not None:
      self.assign(s.target, self.eval(s.value, st, fid), st, fid)

  def s_AugAssign(self, s, st, fid):
    x = s.target
    if isinstance(x, ast.Name):
      cur = self.e_Name(x, st, fid)
      base = idx = None
    elif isinstance(x, ast.Attribute):
      base = self.eval(x.value, st, fid)
      cur = self.getattr(st, base, x.attr)
    elif isinstance(x, ast.Subscript):
      base = self.eval(x.value, st, fid)
      idx = self.eval(x.slice, st, fid)
      cur = self.getitem(st, base, idx)
    else:
      raise Lost('augmented assignment target')
    v = self.eval(s.value, st, fid)
    if isinstance(s.op, ast.Add) and self.kind(st, cur) == 'list':
      self.lib.method(self, st, cur, 'extend', [v], {})
      new = cur
    else:
      new = self.binop(st, s.op, cur, v)
    if isinstance(x, ast.Name):
      self.set_name(st, fid, x.id, new)
    elif isinstance(x, ast.Attribute):
      self.setattr(st, base, x.attr, new)
    else:
      self.setitem(st, base, idx, new, x.value, fid)
      return
    self.changed_array(st, fid, x, cur, new)

  def changed_array(self, st, fid, x, old, new):
    """The array old that x is has become new, whatever else names it."""
    if old is new or not self.is_array(st, old):
      return
    self.arrays_changed.append((fid, x.id if isinstance(x, ast.Name) else None,
                                old))
    node = self.fparent[fid][2]
    if node is None or isinstance(node, ast.Lambda):
      return
    for a, b in alias.pairs(node):
      for y, other in ((a, b), (b, a)):
        if not alias.same(x, y):
          continue
        if isinstance(other, ast.Subscript):
          # x is a view of a part of an array
          v = self.read_place(st, fid, other)
          if v is old:
            o = self.eval(other.value, st, fid)
            i = self.eval(other.slice, st, fid)
            self.setitem(st, o, i, new, other.value, fid)
        elif isinstance(y, ast.Subscript):
          pass
        elif self.read_place(st, fid, other) is old:
          self.assign(other, new, st, fid)
          self.arrays_changed.append(
              (fid, other.id if isinstance(other, ast.Name) else None, old))
    # views of parts of it
    for a, b in alias.pairs(node):
      if isinstance(b, ast.Subscript) and isinstance(a, ast.Name) and alias.same(
          b.value, x) and a.id in st.frames[fid]:
        try:
          i = self.eval(b.slice, st, fid)
          was, now = self.getitem(st, old, i), self.getitem(st, new, i)
        except Lost:
          continue
        if st.frames[fid][a.id] is was:
          st.frames[fid][a.id] = now

  def is_array(self, st, v):
    if v.op == 'ite':
      return all(self.is_array(st, y) for y in t.leafset(v))
    return v.op not in ('ref', 'num') and not t.is_scalar(v) and self.kind(
        st, v) not in ('list', 'dict', 'inst', 'set') and self.lib.is_array(v)

  def read_place(self, st, fid, n):
    """The value that is stored at n, if it can be told without effects."""
    if isinstance(n, ast.Name):
      return st.frames[fid].get(n.id)
    if isinstance(n, ast.Attribute):
      o = self.read_place(st, fid, n.value)
      ob = self.obj(st, o) if o is not None and o.op == 'ref' else None
      if ob is None or ob.kind != 'inst':
        return None
      return ob.comps.get(n.attr)
    if isinstance(n, ast.Subscript):
      o = self.read_place(st, fid, n.value)
      if o is None or any(isinstance(y, ast.Name) and y.id not in st.frames[fid]
                          for y in ast.walk(n.slice)):
        return None
      return self.getitem(st, o, self.eval(n.slice, st, fid))
    return None

  def set_name(self, st, fid, name, v):
    node = self.fparent[fid][2]
    f = fid
    if node is not None and not isinstance(node, ast.Lambda) and \
        name not in self.local_names(node) and name not in st.frames[fid]:
      p = self.fparent[fid][0]
      while p is not None:
        if p in st.frames and name in st.frames[p]:
          f = p
          break
        p = self.fparent[p][0]
    st.frames[f][name] = v

  def assign(self, x, v, st, fid):
    if isinstance(x, ast.Name):
      self.set_name(st, fid, x.id, v)
    elif isinstance(x, (ast.Tuple, ast.List)):
      c = self.content(st, v)
      star = [i for i, y in enumerate(x.elts) if isinstance(y, ast.Starred)]
      n = len(x.elts)
      for i, y in enumerate(x.elts):
        if isinstance(y, ast.Starred):
          e = self.new_list(
              st,
              t.idx(c, t.mkslice(num(i), NONE if i == n - 1 else num(i - n + 1),
                                 NONE)))
          self.assign(y.value, e, st, fid)
        elif star and i > star[0]:
          self.assign(y, t.idx(c, num(i - n)), st, fid)
        else:
          self.assign(y, t.idx(c, num(i)), st, fid)
    elif isinstance(x, ast.Attribute):
      o = self.eval(x.value, st, fid)
      self.setattr(st, o, x.attr, v)
    elif isinstance(x, ast.Subscript):
      o = self.eval(x.value, st, fid)
      i = self.eval(x.slice, st, fid)
      self.setitem(st, o, i, v, x.value, fid)
    else:
      raise Lost('assignment target')

  def setattr(self, st, o, name, v):
    if o.op == 'ite':
      def f(s, x):
        self.setattr(s, x, name, v)
        return NONE
      self.split(st, o, f)
      return
    ob = self.obj(st, o)
    if ob is None:
      if isinstance(o.ty, tuple) and o.ty[0] == 'cls':
        self.event(st, 'setattr', obj=o, name=name, value=self.snap(st, v))
        fam = self.ost(st)
        st.fams['ost'] = t.store(
            fam, o,
            mk('app', 'upd:set:' + name,
               (t.select(fam, o), self.snap(st, v)), ()))
      elif o is not BOTTOM:
        self.event(st, 'setattr', obj=o, name=name, value=self.snap(st, v))
      return
    if ob.kind == 'inst':
      c = ob.info
      for k in c.mro():
        if name in k.setters:
          m = k.methods[name + '=set']
          self.call(st, mk('bound', self.mkfunc(k.module, m, None, k), o), [v],
                    {})
          return
        if name in k.readonly:
          self.throw(st, TRUE, 'AttributeError')
          return
        if name in k.methods or name in k.attrs:
          break
      self.event(st, 'write', obj=o, name=name, value=v)
      self.setc(st, o, name, v)
    elif ob.kind == 'ext':
      self.event(st, 'setattr', obj=o, name=name, value=self.snap(st, v))
      self.setc(st, o, 'attr:' + name, v)
    else:
      raise Lost('attribute assignment')

  def setitem(self, st, o, i, v, node, fid):
    if o.op == 'ite' and self.needs_split(st, o):
      def f(s, x):
        self.setitem(s, x, i, v, None, fid)
        return NONE
      self.split(st, o, f)
      return
    k = self.kind(st, o)
    if k == 'dict':
      self.event(st, 'dictset', obj=o, key=i, value=v)
      self.dict_set(st, o, i, v)
    elif k == 'list':
      c = self.getc(st, o, 'content')
      self.setc(st, o, 'content', self.lib.seq_store(c, i, v))
    elif k == 'inst':
      c, m = self.obj(st, o).info.find('__setitem__')
      if m is None:
        raise Lost('item assignment')
      self.call(st, mk('bound', self.mkfunc(c.module, m, None, c), o), [i, v], {})
    else:
      # an array: the variable or attribute that holds it gets a new value
      self.event(st, 'arrayset', obj=o, key=i, value=self.snap(st, v))
      new = self.lib.array_store(self, st, o, i, v)
      if isinstance(node, (ast.Name, ast.Attribute)):
        self.assign(self._store_ctx(node), new, st, fid)
        self.changed_array(st, fid, node, o, new)
      elif isinstance(node, ast.Subscript):
        b = self.eval(node.value, st, fid)
        j = self.eval(node.slice, st, fid)
        self.setitem(st, b, j, new, node.value, fid)
      else:
        raise Lost('item assignment')

  def _store_ctx(self, n):
    return n

  def s_Return(self, s, st, fid):
    v = NONE if s.value is None else self.eval(s.value, st, fid)
    o = Outs()
    if st.pc is not FALSE:
      o.ret.append((st, v))
    return o

  def s_Raise(self, s, st, fid):
    o = Outs()
    name = 'reraise'
    if s.exc is not None:
      n = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
      d = self.prog.dotted(self.fparent[fid][1], n) or ast.unparse(n)
      name = d.split('.')[-1]
      if isinstance(s.exc, ast.Call):
        for a in s.exc.args:
          self.eval(a, st, fid)
    if st.pc is not FALSE:
      o.exc.append((st, name, self.where))
    return o

  def s_Assert(self, s, st, fid):
    c = self.cond(s.test, st, fid)
    self.throw(st, Not(c), 'AssertionError')

  def s_Break(self, s, st, fid):
    o = Outs()
    o.brk.append(st)
    return o

  def s_Continue(self, s, st, fid):
    o = Outs()
    o.cont.append(st)
    return o

  def s_If(self, s, st, fid):
    c = restrict(self.cond(s.test, st, fid), st.pc)
    if st.pc is FALSE:
      o = Outs()
      return o
    if c is TRUE:
      return self.block(s.body, st, fid)
    if c is FALSE:
      return self.block(s.orelse, st, fid)
    s1, s2 = st.copy(And(st.pc, c)), st.copy(And(st.pc, Not(c)))
    a = self.block(s.body, s1, fid) if s1.pc is not FALSE else Outs()
    b = self.block(s.orelse, s2, fid) if s2.pc is not FALSE else Outs()
    o = Outs()
    o.fall = merge(a.fall, b.fall)
    o.ret, o.brk, o.cont, o.exc = (a.ret + b.ret, a.brk + b.brk,
                                   a.cont + b.cont, a.exc + b.exc)
    return o

  def s_With(self, s, st, fid):
    if len(s.items) > 1:
      inner = ast.copy_location(
          ast.With(items=s.items[1:], body=s.body), s)
      s = ast.copy_location(ast.With(items=s.items[:1], body=[inner]), s)
    i = s.items[0]
    v = self.eval(i.context_expr, st, fid)
    if v.op == 'genctx':
      return self.with_generator(s, v, st, fid)
    if self.kind(st, v) == 'inst' and self.obj(st, v).info.find('__exit__')[1]:
      return self.with_instance(s, v, st, fid)
    if i.optional_vars is not None:
      self.assign(i.optional_vars, v, st, fid)
    return self.block(s.body, st, fid)

  def with_generator(self, s, v, st, fid):
    """The body runs where the generator of the context manager yields."""
    uid, fd, args, kw = v.args
    mod, node, cls = self.funcs[uid]
    body = [_within(x, s, fid) for x in node.body]
    self.analysed.add(self.func_name(uid))
    new = self.new_frame(st, fd, mod, node, cls)
    if not self.bind(st, new, node, list(args), dict(kw), fd):
      raise Lost('argument binding of ' + self.func_name(uid))
    saved = self.where
    self.stack.append(node)
    try:
      return self.block(body, st, new)
    finally:
      self.stack.pop()
      self.where = saved

  def s__Within(self, s, st, fid):
    v = NONE if s.value is None else self.eval(s.value, st, fid)
    var = s.stmt.items[0].optional_vars
    if var is not None:
      self.assign(var, v, st, s.fid)
    return self.block(s.stmt.body, st, s.fid)

  def with_instance(self, s, v, st, fid):
    x = self.lib_call(st, v, '__enter__', [])
    var = s.items[0].optional_vars
    if var is not None:
      self.assign(var, x, st, fid)
    o, p = self.block(s.body, st, fid), Outs()

    def leave(state, exc):
      self.excs.append(p.exc)
      try:
        r = self.lib_call(state, v, '__exit__', [exc] * 3)
      finally:
        self.excs.pop()
      if exc is not NONE and t.truth(r) is not FALSE:
        raise Lost('a context manager that suppresses exceptions')
      return state if state.pc is not FALSE else None

    if o.fall is not None:
      p.fall = leave(o.fall, NONE)
    for rs, x in o.ret:
      q = leave(rs, NONE)
      if q is not None:
        p.ret.append((q, x))
    for name in ('brk', 'cont'):
      for bs in getattr(o, name):
        q = leave(bs, NONE)
        if q is not None:
          getattr(p, name).append(q)
    for es, n, w in o.exc:
      q = leave(es, mk('excval', next(_uid)))
      if q is not None:
        p.exc.append((q, n, w))
    return p

  def lib_call(self, st, v, name, args):
    return self.call(st, self.getattr(st, v, name), args, {})

  def s_ClassDef(self, s, st, fid):
    st.frames[fid][s.name] = t.lost('local class')

  def s_Try(self, s, st, fid):
    r = self.block(s.body, st, fid)
    o = Outs()
    o.ret, o.brk, o.cont = list(r.ret), list(r.brk), list(r.cont)
    excs = r.exc
    falls = []
    if r.fall is not None:
      if s.orelse:
        x = self.block(s.orelse, r.fall, fid)
        o.ret += x.ret
        o.brk += x.brk
        o.cont += x.cont
        o.exc += x.exc
        falls.append(x.fall)
      else:
        falls.append(r.fall)
    rest = []
    for es, name, where in excs:
      handled = False
      for h in s.handlers:
        hn = self._handler_names(h, fid)
        if hn is None or name in hn or 'Exception' in hn or \
            'BaseException' in hn or name.startswith('implicit') or \
            (name in ('KeyError', 'IndexError') and 'LookupError' in hn):
          hs = es.copy()
          if name.startswith('implicit') and hn is not None and not (
              hn & {'Exception', 'BaseException'}):
            a = t.atom(mk('exckind', next(_uid)))
            rs = es.copy(And(es.pc, Not(a)))
            rest.append((rs, name, where))
            hs.pc = And(hs.pc, a)
          if h.name:
            hs.frames[fid][h.name] = mk('excval', next(_uid))
          x = self.block(h.body, hs, fid)
          o.ret += x.ret
          o.brk += x.brk
          o.cont += x.cont
          for e2, n2, w2 in x.exc:
            o.exc.append((e2, name if n2 == 'reraise' else n2, w2))
          falls.append(x.fall)
          handled = True
          break
      if not handled:
        rest.append((es, name, where))
    o.exc += rest
    f = None
    for x in falls:
      f = merge(f, x)
    o.fall = f
    if not s.finalbody:
      return o
    p = Outs()

    def fin(state):
      x = self.block(s.finalbody, state, fid)
      p.ret.extend(x.ret)
      p.brk.extend(x.brk)
      p.cont.extend(x.cont)
      p.exc.extend(x.exc)
      return x.fall

    if o.fall is not None:
      p.fall = fin(o.fall)
    for rs, v in o.ret:
      q = fin(rs)
      if q is not None:
        p.ret.append((q, v))
    for name in ('brk', 'cont'):
      for bs in getattr(o, name):
        q = fin(bs)
        if q is not None:
          getattr(p, name).append(q)
    for es, n, w in o.exc:
      q = fin(es)
      if q is not None:
        p.exc.append((q, n, w))
    return p

  def _handler_names(self, h, fid):
    if h.type is None:
      return None
    ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
    return {(self.prog.dotted(self.fparent[fid][1], x) or '?').split('.')[-1]
            for x in ts}

  # --------------------------------------------------------------------- loops

  def s_For(self, s, st, fid):
    if s.orelse and _breaks(s.body):
      return self.block(_without_else(s), st, fid)
    it = self.eval(s.iter, st, fid)
    r = self.loop(st, fid, s.target, it, lambda q: self.block(s.body, q, fid))
    if s.orelse and r.fall is not None:
      x = self.block(s.orelse, r.fall, fid)
      r.fall = x.fall
      r.ret += x.ret
      r.brk += x.brk
      r.cont += x.cont
      r.exc += x.exc
    return r

  def loop(self, st, fid, target, it, body):
    """for target in it: body."""
    c = self.content(st, it)
    return self.loop_seq(st, fid, target, c, body)

  def loop_seq(self, st, fid, target, c, body):
    if c.op == 'ite':
      a = t.atom(c.args[0])
      s1, s2 = st.copy(And(st.pc, a)), st.copy(And(st.pc, Not(a)))
      o1 = self.loop_seq(s1, fid, target, c.args[1],
                         body) if s1.pc is not FALSE else Outs()
      o2 = self.loop_seq(s2, fid, target, c.args[2],
                         body) if s2.pc is not FALSE else Outs()
      o = Outs()
      o.fall = merge(o1.fall, o2.fall)
      for n in ('ret', 'brk', 'cont', 'exc'):
        setattr(o, n, getattr(o1, n) + getattr(o2, n))
      o.broke = o1.broke or o2.broke
      return o
    if c.op == 'seq':
      return self.unroll(st, fid, target, c.args[1], body)
    if c.op == 'cat':
      o = Outs()
      cur = st
      for p in c.args[1]:
        if cur is None or cur.pc is FALSE:
          break
        if o.broke:
          raise Lost(f'a loop over joined sequences with break at {self.where}')
        r = self.loop_seq(cur, fid, target, p, body)
        o.broke = o.broke or r.broke
        o.ret += r.ret
        o.exc += r.exc
        cur = r.fall
      o.fall = cur
      return o
    k = tmp('k', ty='int')
    if c.op == 'map':
      n, g, e = c.args[1], t.inst(c, k, 2), t.inst(c, k, 3)
    else:
      n, g, e = t.length(c), TRUE, t.idx(c, k)
    return self.loop_sym(st, fid, target, n, g, e, k, body, c)

  def unroll(self, st, fid, target, elems, body):
    o = Outs()
    cur = st
    brks = []
    for i, x in enumerate(elems):
      if cur is None or cur.pc is FALSE:
        break
      self.assign(target, x, cur, fid)
      self.path.append(('i', i))
      try:
        r = body(cur)
      finally:
        self.path.pop()
      o.ret += r.ret
      o.exc += r.exc
      brks += r.brk
      nxt = r.fall
      for q in r.cont:
        nxt = merge(nxt, q)
      cur = nxt
    for q in brks:
      cur = merge(cur, q)
    o.fall = cur
    o.broke = bool(brks)
    return o

  def comps_of(self, st):
    for f, fr in st.frames.items():
      for n, v in fr.items():
        yield ('var', f, n), v
    for oid, o in st.heap.items():
      for n, v in o.comps.items():
        yield ('obj', oid, n), v
    for n, v in st.fams.items():
      yield ('fam', n), v

  def get_comp(self, st, c):
    if c[0] == 'var':
      return st.frames.get(c[1], {}).get(c[2], UNDEF)
    if c[0] == 'obj':
      o = st.heap.get(c[1])
      return UNDEF if o is None else o.comps.get(c[2], UNDEF)
    return st.fams.get(c[1], UNDEF)

  def set_comp(self, st, c, v):
    if c[0] == 'var':
      st.frames.setdefault(c[1], {})[c[2]] = v
    elif c[0] == 'obj':
      st.heap[c[1]] = st.heap[c[1]].put(c[2], v)
    else:
      st.fams[c[1]] = v

  def changed(self, a, b):
    out = []
    old = dict(self.comps_of(a))
    for c, v in self.comps_of(b):
      if c[0] == 'var' and c[1] not in a.frames:
        continue
      if c[0] == 'obj' and c[1] not in a.heap:
        continue
      if c[0] == 'fam' and c not in old:
        continue
      w = old.get(c, UNDEF)
      if w is not v:
        out.append(c)
    return out

  def list_value(self, st, v):
    """Whether v denotes list objects only."""
    ls = t.leafset(v)
    return ls and all(self.kind(st, x) == 'list' for x in ls)

  def same_head(self, st, c, new, heads, end):
    """The symbol of another variable of the loop that is the same array."""
    if c[0] != 'var':
      return None
    node = self.fparent[c[1]][2]
    if node is None or isinstance(node, ast.Lambda):
      return None
    v0, e = self.get_comp(st, c), self.get_comp(end, c)
    for d in new:
      if d is not c and d in heads and d[:2] == c[:2] and self.get_comp(
          st, d) is v0 and self.get_comp(end, d) is e and any(
              {getattr(a, 'id', 0), getattr(b, 'id', 0)} == {c[2], d[2]}
              for a, b in alias.pairs(node)) and self.is_array(st, v0):
        return heads[d]
    return None

  def fresh_head(self, st, c, v0, end_state, e):
    """The symbolic value of a modified location at the loop head."""
    name = str(c[2] if c[0] != 'fam' else c[1])
    if c[0] == 'fam':
      return mk('fambase', name, next(_uid))
    if c[0] == 'obj':
      o = st.heap[c[1]]
      if o.fam or c[2] == 'fam':
        return mk('fambase', name, next(_uid), ty=('list', None) if c[2] ==
                  'content' else None)
    if c[0] == 'var' and v0 is not UNDEF and self.list_value(
        st, v0) and self.list_value(end_state, e):
      c0 = self.content(st, v0)
      ce = self.content(end_state, e)
      L = sym(name + '@', ty=self.join_type(t.type_of(c0), t.type_of(ce)))
      return self.alloc(st, 'list', content=L)
    ty0 = t.type_of(v0) if v0 is not UNDEF else None
    ty1 = t.type_of(e)
    if t.is_bool(v0) and (t.is_bool(e) or e.ty == 'bool'):
      ty = 'bool'
    else:
      ty = self.join_type(ty0, ty1)
    return sym(name + '@', ty=ty)

  def join_type(self, a, b):
    if a == b:
      return a
    if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0] == 'list':
      return ('list', a[1] or b[1])
    if isinstance(a, tuple) and isinstance(b, tuple):
      if a[0] in ('list', 'array') and b[0] in ('list', 'array'):
        return ('list', a[1] or b[1])
      return a
    nums = ('num', 'int', 'float')
    if a in nums and b in nums:
      return 'num'
    if a in nums and b is None or b in nums and a is None:
      return 'num'
    return a or b if None in (a, b) else None

  def loop_sym(self, st, fid, target, n, g, elem, k, body, c):
    """A loop over a symbolic number of elements."""
    heads = {}
    self.loop_tmps.append(k)
    saved_log = st.log
    try:
      for _ in range(12):
        begin = st.copy(TRUE)
        begin.log = ()
        begin.pc = g
        for cc, L in heads.items():
          self.set_comp(begin, cc, L)
        # objects made for list-valued loop variables
        for o in st.heap:
          if o not in begin.heap:
            begin.heap[o] = st.heap[o]
        snapshot = begin.copy()
        self.assign(target, elem, begin, fid)
        for nm in ast.walk(target):
          if isinstance(nm, ast.Name):
            snapshot.frames[fid][nm.id] = self.get_comp(begin,
                                                        ('var', fid, nm.id))
        self.excs.append([])
        try:
          outs = body(begin)
        finally:
          ex = self.excs.pop()
        outs.exc = outs.exc + ex
        end = outs.fall
        for q in outs.cont:
          end = merge(end, q)
        # iterations excluded by the filter leave everything as it was
        if g is not TRUE and end is not None:
          skip = snapshot.copy(Not(g))
          end2 = end.copy(end.pc)
          end = merge(end2, skip)
        new = []
        for q in ([end] if end is not None else []) + outs.brk:
          for cc in self.changed(snapshot, q):
            if cc not in heads and cc not in new:
              new.append(cc)
        if not new:
          break
        ref_state = end if end is not None else outs.brk[0]
        for cc in new:
          v0 = self.get_comp(st, cc)
          heads[cc] = self.same_head(st, cc, new, heads, ref_state) or \
              self.fresh_head(st, cc, v0, ref_state, self.get_comp(ref_state, cc))
      else:
        raise Lost(f'loop at {self.where} does not stabilise')
    finally:
      self.loop_tmps.pop()
    o = self.summarise(st, n, k, c, heads, snapshot, end, outs)
    o.broke = bool(outs.brk)
    return o

  def summarise(self, st, n, k, c, heads, snapshot, end, outs):
    o = Outs()
    post = st.copy()
    if end is None:
      end = snapshot
    # families of the objects allocated by the iterations
    fresh = [x for x in end.heap if x not in snapshot.heap]
    ren = {}
    for x in fresh:
      ob = end.heap[x]
      F = next(_uid)
      ren[mk('ref', x)] = (F, ob)
    keyterm = self.loop_key(k, c)
    a = tmp('a')

    def reloc(v):
      """References to per-iteration objects become family references."""
      if not ren or v is UNDEF:
        return v
      used = [r for r in ren if r in set(t.subterms(v))]
      if not used:
        return v
      return t.replace(v, {r: mk('fref', ren[r][0], keyterm) for r in used})

    cf, fin = {}, {}  # closed forms at iteration k, final values
    todo = {}
    for cc, L in heads.items():
      v0 = self.get_comp(st, cc)
      e = self.get_comp(end, cc)
      if cc[0] == 'var' and L.op == 'ref' and self.list_value(end, e):
        Lc = st.heap[L.args[0]].comps['content']
        todo[cc] = (Lc, self.content(st, v0), reloc(self.content(end, e)), 'listvar')
        # the placeholder object itself may have been mutated
      else:
        todo[cc] = (L, v0, reloc(e), 'plain')
    Ls = {L: cc for cc, (L, _, _, _) in todo.items()}
    # placeholder objects of list variables that were mutated in place
    drop = set()
    for cc in list(todo):
      if cc[0] == 'obj' and any(
          L.op == 'ref' and L.args[0] == cc[1] for L in heads.values()):
        drop.add(cc)
    for cc in drop:
      L, v0, e, _ = todo[cc]
      for c2, (L2, w0, e2, m2) in list(todo.items()):
        if m2 == 'listvar' and heads[c2].args[0] == cc[1]:
          # content at the iteration's start is this object's content
          todo[c2] = (L, w0, t.subst(e2, {L2: L}) if e2 is not L2 else e, m2)
      del todo[cc]
    Ls = {L: cc for cc, (L, _, _, _) in todo.items()}

    while todo:
      progress = False
      for cc, (L, v0, e, mode) in list(todo.items()):
        e2 = self.apply_cf(e, cf)
        others = [x for x in Ls if x is not L and x not in cf and
                  self.mentions(e2, x)]
        if others:
          continue
        r = self.recurrence(cc, L, v0, e2, n, k, c)
        if r is None:
          continue
        cf[L], fin[cc] = r
        del todo[cc]
        if mode == 'listvar':
          content = fin[cc]
          fin[cc] = ('list', content)
        progress = True
      if progress or not todo:
        continue
      # no closed form: the iterates of a joint recurrence that needs no other
      deps = {}
      for cc, (L, v0, e, mode) in todo.items():
        e2 = self.apply_cf(e, cf)
        deps[cc] = [c2 for c2, x in todo.items() if self.mentions(e2, x[0])]
      def reach(cc):
        seen = [cc]
        for x in seen:
          seen += [y for y in deps[x] if y not in seen]
        return seen
      group = min((reach(cc) for cc in todo), key=len)
      its = [(cc, x) for cc, x in todo.items() if cc in group]
      hs = [tmp('h', ty=x[1][0].ty) for x in its]
      hm = {x[1][0]: y for x, y in zip(its, hs)}
      inits = [x[1][1] for x in its]
      steps = []
      for _, (L, v0, e, mode) in its:
        e = self.apply_cf(e, cf)
        e = t.replace(e, hm) if e is not UNDEF else e
        steps.append(e)
      kk = tmp('k', ty='int')
      steps = [t.subst(e, {k: kk}) for e in steps]
      for i, (cc, (L, v0, e, mode)) in enumerate(its):
        cf[L] = t.mkfold(k, inits, steps, hs, kk, i)
        w = t.mkfold(n, inits, steps, hs, kk, i)
        fin[cc] = ('list', w) if mode == 'listvar' else w
        del todo[cc]
    # exits
    pcx = FALSE
    for es, name, where in outs.exc:
      p = self.apply_cf(es.pc, cf)
      q = t.mkany(n, p, k)
      pcx = Or(pcx, q)
      x = st.copy(And(st.pc, q))
      for cc in heads:
        self.set_comp(x, cc, t.lost('state at an exception in a loop'))
      x.log = x.log + (Event(
          'foreach', x.pc, dict(n=n, k=k, seq=c, events=self.map_log(
              es.log, cf, reloc)), self.where),)
      o.exc.append((x, name, where))
    rets = FALSE
    for rs, v in outs.ret:
      p = self.apply_cf(rs.pc, cf)
      q = t.mkany(n, p, k)
      rets = Or(rets, q)
      v = reloc(self.apply_cf(v, cf))
      if k in v.fv:
        v = mk('app', 'first', (n, self.close1(k, p), self.close1(k, v)), ())
      x = st.copy(And(st.pc, q, Not(pcx)))
      for cc in heads:
        w = self.get_comp(rs, cc)
        if w is heads[cc]:
          continue
        self.set_comp(x, cc, t.lost('state at a return in a loop'))
      if x.pc is not FALSE:
        o.ret.append((x, v))
    # normal exit
    for x in fresh:
      F, ob = ren[mk('ref', x)]
      comps = {}
      for nm, v in ob.comps.items():
        v = reloc(self.apply_cf(v, cf))
        vv = t.replace(v, {keyterm: a}) if keyterm is not k else t.subst(
            v, {k: a})
        if k in vv.fv:
          vv = t.subst(vv, {k: mk('app', 'pos', (c, a), ())})
        comps[nm] = t.famall(FAMEMPTY, self.key_domain(n, k, c), vv, a)
      post.heap[F] = Obj(ob.kind, ob.info, comps, True)
    for f in end.frames:
      if f not in post.frames:
        post.frames[f] = dict(end.frames[f])
    for cc, v in fin.items():
      if isinstance(v, tuple):
        v = self.alloc(post, 'list', content=v[1])
      self.set_comp(post, cc, v)
    ev = self.map_log(end.log, cf, reloc)
    for q in outs.brk:
      for x in q.log:
        y = self.map_log((x,), cf, reloc)[0]
        ev += (y,)
    if ev:
      post.log = post.log + (Event('foreach', st.pc,
                                   dict(n=n, k=k, seq=c, events=ev),
                                   self.where),)
    post.pc = And(st.pc, Not(pcx), Not(rets))
    if outs.brk:
      b = outs.brk[0]
      for q in outs.brk[1:]:
        b = merge(b, q)
      p = self.apply_cf(b.pc, cf)
      q = t.mkany(n, p, k)
      for cc in heads:
        eb = self.get_comp(b, cc)
        ee = self.get_comp(end, cc)
        L = heads[cc]
        v0 = self.get_comp(st, cc)
        if ee is L and not any(self.mentions(eb, x) for x in Ls) :
          if k in eb.fv:
            eb = mk('app', 'first', (n, self.close1(k, p), self.close1(k, eb)),
                    ())
          self.set_comp(post, cc, ITE(q, eb, v0))
        elif eb is L and ee is L:
          self.set_comp(post, cc, v0)
        else:
          self.set_comp(post, cc, t.lost('state after a break'))
    o.fall = post if post.pc is not FALSE else None
    return o

  def close1(self, k, v):
    return t.subst(v, {k: mk('sym', 'first', -1)})

  def map_log(self, log, cf, reloc=lambda v: v):
    f = lambda v: reloc(self.apply_cf(v, cf)) if isinstance(v, T) else v

    def go(x):
      if isinstance(x, T):
        return f(x)
      if isinstance(x, tuple):
        return tuple(go(y) for y in x)
      if isinstance(x, dict):
        return {a: go(b) for a, b in x.items()}
      if isinstance(x, Event):
        return Event(x.kind, f(x.pc), go(x.d), x.where)
      return x

    return tuple(go(e) for e in log)

  def apply_cf(self, v, cf):
    if not cf or v is UNDEF:
      return v
    m = {L: x for L, x in cf.items() if L.op == 'sym'}
    v = t.subst(v, m)
    fb = {L: x for L, x in cf.items() if L.op == 'fambase' and x is not L}
    if fb and any(x in fb for x in t.subterms(v)):
      v = t.replace(v, fb)
    return v

  def mentions(self, v, L):
    if v is UNDEF:
      return False
    if L.op == 'sym':
      return L in v.fv
    return any(x is L for x in t.subterms(v))

  def loop_key(self, k, c):
    if c.op == 'map':
      return k
    return t.idx(c, k)

  def key_domain(self, n, k, c):
    if c.op == 'map':
      k2 = tmp()
      return t.mkmap('list', n, TRUE, k2, k2)
    return c

  def _fill(self, L, v0, e, n, k):
    vals = []
    for x in t.leafset(e):
      if x is L:
        continue
      if not (x.op == 'app' and x.args[0] == 'setitem' and x.args[1][0] is L and
              x.args[1][1] is k) or self.mentions(x.args[1][2], L):
        return None
    if not t.rat_equal(t.length(v0), n):
      return None
    kk = tmp('k', ty='int')
    old = t.idx(v0, k)
    val = t.lift(lambda x: old if x is L else x.args[1][2])(e)
    f = lambda m: t.mkmap('array', n, TRUE, t.subst(
        val if m is n else ITE(t.lt(k, m), val, old), {k: kk}), kk)
    return f(k), f(n)

  def recurrence(self, cc, L, v0, e, n, k, c):
    """(value at the start of iteration k, value after the loop)."""
    if e is L:
      return v0, v0
    if L.op == 'fambase':
      return self.fam_recurrence(L, v0, e, n, k, c)
    if not self.mentions(e, L):
      if e is v0:
        return v0, v0
      prev = t.subst(e, {k: t.sub(k, t.ONE)})
      first = t.eq(k, t.ZERO)
      start = prev if v0 is UNDEF else ITE(first, v0, prev)
      last = t.subst(e, {k: t.sub(n, t.ONE)})
      if k not in e.fv:
        last = e
      return start, (last if v0 is UNDEF else ITE(t.eq(n, t.ZERO), v0, last))
    kk = tmp('k', ty='int')
    # the keys of a dict or the elements of a set
    x = self._insert(e, L)
    if x is not None and not self.mentions(x, L):
      f = lambda nn: t.dedup(t.cat('list', [
          v0, t.mkmap('list', nn, TRUE, t.subst(x, {k: kk}), kk)]))
      return f(k), f(n)
    # sequences
    rest = self.peel(e, L)
    if rest is not None:
      lens = {len(x.args[1]) if x.op == 'seq' else None for x in t.leafset(rest)}
      if not self.mentions(rest, L) and lens <= {0, 1}:
        one = t.lift(lambda x: TRUE if x.args[1] else FALSE)(rest)
        val = self._elem(rest)
        if val is not None:
          m = lambda nn: t.cat('list', [
              v0, t.mkmap('list', nn, t.subst(one, {k: kk}),
                          t.subst(val, {k: kk}), kk)])
          return m(k), m(n)
      return None
    # arrays of which iteration k writes element k
    if any(x.op == 'app' and x.args[0] == 'setitem' for x in t.leafset(e)):
      r = self._fill(L, v0, e, n, k)
      if r is not None:
        return r
    # booleans
    if L.ty == 'bool' and all(x in (TRUE, FALSE, L) for x in t.leafset(e)):
      e = t.lift(lambda x: t.truth(x) if x is L else x)(e)
      la = mk('truth', L)
      hi, lo = t.cofactor(e, la, 1), t.cofactor(e, la, 0)
      if hi is TRUE and not self.mentions(lo, L):
        f = lambda nn: Or(v0, t.mkany(nn, t.subst(lo, {k: kk}), kk))
        return f(k), f(n)
      if lo is FALSE and not self.mentions(hi, L):
        f = lambda nn: And(v0, t.mkall(nn, t.subst(hi, {k: kk}), kk))
        return f(k), f(n)
      return None
    # min / max
    for w in ('min', 'max'):
      x = self._minmax(e, L, w)
      if x is not None:
        f = lambda nn: t.extremum(w, [
            v0,
            t.app(w, t.mkmap('list', nn, TRUE, t.subst(x, {k: kk}), kk))])
        return f(k), f(n)
    # conditional overwrite by a constant
    lv = t.leafset(e)
    consts = [x for x in lv if x is not L]
    if L in lv and len(consts) == 1 and not self.mentions(
        consts[0], L) and k not in consts[0].fv:
      gd = t.lift(lambda x: FALSE if x is L else TRUE)(e)
      if not self.mentions(gd, L):
        f = lambda nn: ITE(t.mkany(nn, t.subst(gd, {k: kk}), kk), consts[0], v0)
        return f(k), f(n)
    # sums
    if v0 is not UNDEF:
      d = t.sub(e, L)
      if not self.mentions(d, L):
        f = lambda nn: t.add(v0, t.mksum(nn, t.subst(d, {k: kk}), kk))
        return f(k), f(n)
    return None

  def _insert(self, e, L):
    """The element that e adds to L unless it is there already."""
    for x in t.subterms(e):
      if x.op == 'seq' and len(x.args[1]) == 1:
        v = x.args[1][0]
        if e is ITE(t.member(v, L), L, t.cat('list', [L, x])):
          return v
    return None

  def _elem(self, rest):
    xs = [x.args[1][0] for x in t.leafset(rest) if x.args[1]]
    if len(set(xs)) == 1:
      return xs[0]
    return t.lift(lambda x: x.args[1][0] if x.args[1] else xs[0])(rest)

  def _minmax(self, e, L, w):
    if e.op == w + '2' and L in e.args[0]:
      o = [x for x in e.args[0] if x is not L]
      if any(self.mentions(x, L) for x in o):
        return None
      return t.extremum(w, o)
    lv = t.leafset(e)
    if len(lv) == 2 and L in lv:
      x = [y for y in lv if y is not L][0]
      if self.mentions(x, L):
        return None
      cmp = t.lt if w == 'min' else t.gt
      if e is ITE(cmp(x, L), x, L) or e is ITE(Not(cmp(L, x)), x, L):
        return x
    return None

  def peel(self, e, L):
    """The sequence that e appends to L, or None."""
    if e is L:
      return seq('list', [])
    if e.op == 'ite':
      h, l = self.peel(e.args[1], L), self.peel(e.args[2], L)
      if h is None or l is None:
        return None
      return ITE(t.atom(e.args[0]), h, l)
    if e.op == 'cat' and e.args[1][0] is L:
      return t.cat('list', list(e.args[1][1:]))
    return None

  def fam_recurrence(self, L, v0, e, n, k, c):
    """Pointwise updates of a family by the iterations."""

    def keys(x):
      if x is L:
        return []
      if x.op == 'ite':
        a, b = keys(x.args[1]), keys(x.args[2])
        return None if a is None or b is None else a + [y for y in b
                                                        if y not in a]
      if x.op == 'store':
        a = keys(x.args[0])
        return None if a is None else a + ([x.args[1]]
                                           if x.args[1] not in a else [])
      if x.op == 'famall':
        # a nested loop over another collection: only a uniform update
        return None
      return None

    ks = keys(e)
    if ks is None or len(ks) != 1:
      return None
    key = ks[0]
    if k not in key.fv:
      return None
    val = t.select(e, key)
    own = mk('sel', L, key)
    a = tmp('a')
    o = sym('own')
    val = t.replace(val, {own: o, t.select(L, key): o})
    # entries for objects of other classes stay as they are
    kt = t.type_of(key)
    for x in list(t.subterms(val)):
      if x.op == 'sel' and x.args[0] is L and k not in x.args[1].fv and \
          unrelated(kt, t.type_of(x.args[1])) and v0 is not UNDEF:
        val = t.replace(val, {x: t.select(v0, x.args[1])})
    if self.mentions(val, L):
      return None
    inj = key is k or key.op == 'strcat' or key.op == 'idx' and t.distinct(
        key.args[0])
    if not inj and o in val.fv:
      return None
    dom, val = self.key_of(key, val, n, k, c, a)
    if dom is None:
      return None
    base = FAMEMPTY if v0 is UNDEF else v0
    val = t.subst(val, {o: t.select(base, a)})
    kk = tmp('k', ty='int')
    pre = t.mkmap('list', k, TRUE, t.subst(key, {k: kk}), kk)
    return t.famall(base, pre, val, a), t.famall(base, dom, val, a)

  def key_of(self, key, val, n, k, c, a):
    """Rewrites a per-iteration value as a function of the iteration's key."""
    if key is k:
      k2 = tmp()
      return t.mkmap('list', n, TRUE, k2, k2), t.subst(val, {k: a})
    if key.op == 'idx' and key.args[1] is k and k not in key.args[0].fv:
      base = key.args[0]
      v = t.replace(val, {key: a})
      if k in v.fv:
        v = t.subst(v, {k: mk('app', 'pos', (base, a), ())})
      nb = t.length(base)
      if nb is n:
        return base, v
      k2 = tmp()
      return t.mkmap('list', n, TRUE, t.idx(base, k2), k2), v
    # strings such as 'V' + str(i), or other injective keys
    k2 = tmp()
    dom = t.mkmap('list', n, TRUE, t.subst(key, {k: k2}), k2)
    v = t.replace(val, {key: a})
    if k in v.fv:
      v = t.subst(v, {k: mk('app', 'pos', (dom, a), ())})
    return dom, v

  def subsequences(self, st, heads, back):
    """Learns that a list only ever loses elements in a while-loop."""
    if back is None:
      return False
    learnt = False
    for cc, L in heads.items():
      v0, e = self.get_comp(st, cc), self.get_comp(back, cc)
      if L.op == 'ref':
        v0, e = self.content(st, v0), self.content(back, e)
        L = st.heap[L.args[0]].comps['content']
      if L.op != 'sym' or L in t.SUBSEQ or v0 is UNDEF:
        continue

      def sub(x):
        return x is L or x.op == 'map' and x.args[3].op == 'idx' and x.args[3].args[
            0] is L and x.args[3].args[1] is mk('bv', x.args[-1])

      if all(sub(x) for x in t.leafset(restrict(e, back.pc))) and (
          v0.op in ('sym', 'map') or t.is_listish(v0)):
        t.SUBSEQ[L] = v0
        learnt = True
    return learnt

  def s_While(self, s, st, fid):
    if s.orelse and _breaks(s.body):
      return self.block(_without_else(s), st, fid)
    heads = {}
    o = Outs()
    c0 = None
    entry = st.copy()
    ex0 = []
    self.excs.append(ex0)
    try:
      c0 = restrict(self.cond(s.test, entry, fid), entry.pc)
    finally:
      self.excs.pop()
    o.exc += ex0
    wid = next(_uid)
    tk = tmp('w', ty='int')
    self.loop_tmps.append(tk)
    try:
      for _ in range(12):
        head = st.copy(TRUE)
        head.log = ()
        for cc, L in heads.items():
          self.set_comp(head, cc, L)
        for x in st.heap:
          if x not in head.heap:
            head.heap[x] = st.heap[x]
        snapshot = head.copy()
        self.excs.append([])
        try:
          ch = self.cond(s.test, head, fid)
          pre = head.copy()
          head.pc = And(head.pc, ch)
          outs = self.block(s.body, head, fid) if head.pc is not FALSE else Outs()
        finally:
          ex = self.excs.pop()
        outs.exc = outs.exc + ex
        back = outs.fall
        for q in outs.cont:
          back = merge(back, q)
        new = []
        for q in ([back] if back is not None else []):
          for cc in self.changed(snapshot, q):
            if cc not in heads and cc not in new:
              new.append(cc)
        if not new:
          if self.subsequences(st, heads, back):
            continue
          break
        for cc in new:
          heads[cc] = self.fresh_head(st, cc, self.get_comp(st, cc), back,
                                      self.get_comp(back, cc))
      else:
        raise Lost(f'loop at {self.where} does not stabilise')
    finally:
      self.loop_tmps.pop()
    cb = FALSE
    if back is not None:
      b2 = back.copy()
      self.excs.append([])
      cb = restrict(self.cond(s.test, b2, fid), b2.pc)
      outs.exc += self.excs.pop()
      back_log = b2.log
    info = dict(
        id=wid, heads=heads, init=st.copy(), head=snapshot, cond_entry=c0,
        cond_head=ch, back=back, cond_back=cb, breaks=outs.brk, rets=outs.ret,
        excs=outs.exc, tmp=tk)
    exits = []
    # never entered
    e0 = entry.copy(And(entry.pc, Not(c0)))
    if e0.pc is not FALSE:
      exits.append(e0)
    outer = And(entry.pc, c0)

    def leave(q, pc):
      x = q.copy(And(outer, pc))
      x.log = entry.log + (Event('while', outer, {**info, 'events': q.log},
                                 self.where),)
      # the locations that existed before keep their identity
      for f in entry.frames:
        if f not in x.frames:
          x.frames[f] = dict(entry.frames[f])
      for ob in entry.heap:
        if ob not in x.heap:
          x.heap[ob] = entry.heap[ob]
      return x

    full_log = back.log if back is not None else ()
    for q in outs.brk:
      full_log = _merge_logs(full_log, q.log)
    for q, _ in outs.ret:
      full_log = _merge_logs(full_log, q.log)
    for q, _, _ in outs.exc:
      full_log = _merge_logs(full_log, q.log)
    info['events'] = full_log
    ev = Event('while', outer, info, self.where)
    if back is not None:
      p = And(back.pc, Not(cb))
      if p is not FALSE:
        exits.append(leave(back, p))
    for q in outs.brk:
      exits.append(leave(q, q.pc))
    info['exit_states'] = [(q.pc, q) for q in outs.brk] + (
        [(And(back.pc, Not(cb)), back)] if back is not None else [])
    fall = None
    for x in exits:
      x.log = entry.log + ((ev,) if x is not e0 else ())
      fall = merge(fall, x)
    if fall is not None:
      fall.log = entry.log + (ev,)
    for rs, v in outs.ret:
      x = leave(rs, rs.pc)
      x.log = entry.log + (ev,)
      o.ret.append((x, v))
    for es, nme, w in outs.exc:
      x = leave(es, es.pc)
      x.log = entry.log + (ev,)
      o.exc.append((x, nme, w))
    if s.orelse and fall is not None:
      x = self.block(s.orelse, fall, fid)
      o.fall = x.fall
      o.ret += x.ret
      o.exc += x.exc
      o.brk += x.brk
      o.cont += x.cont
      return o
    o.fall = fall
    return o


class _Within(ast.stmt):
  """The place of a yield, where the body of a with statement runs."""


def _within(node, stmt, fid):
  """The statement of a context manager, with its yield as the body of stmt."""

  class V(ast.NodeTransformer):

    def visit_FunctionDef(self, x):
      return x

    visit_Lambda = visit_FunctionDef

    def visit_Return(self, x):
      raise Lost('a context manager that returns')

    def visit_For(self, x):
      if any(isinstance(y, ast.Yield) for y in ast.walk(x)):
        raise Lost('a context manager that loops')
      return x

    visit_While = visit_For

    def visit_Expr(self, x):
      if isinstance(x.value, ast.Yield):
        r = ast.copy_location(_Within(), x)
        r.value, r.stmt, r.fid = x.value.value, stmt, fid
        return r
      return x

  import copy
  return V().visit(copy.deepcopy(node))

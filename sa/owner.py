"""Ownership: which functions modify, in place, storage they were given.

A flow-sensitive, interprocedural alias analysis over the syntax trees of the
package.  A value is abstracted by the roots whose storage it may be (own) and
those that can be reached from it (inner).  Roots are the parameters of the
function under analysis; whatever else it holds is fresh.
"""
import ast
import builtins

SCALARS = {'int', 'float', 'str', 'bool', 'complex', 'None', 'NoneType'}
ALIAS_FN = {'asarray', 'asanyarray', 'atleast_1d', 'atleast_2d', 'atleast_3d',
            'ravel', 'reshape', 'squeeze', 'transpose', 'broadcast_to',
            'swapaxes', 'expand_dims', 'moveaxis', 'ascontiguousarray'}
ALIAS_METH = {'reshape', 'ravel', 'squeeze', 'transpose', 'view', 'swapaxes'}
INNER_METH = {'get', 'values', 'items', 'keys', 'pop', 'popitem', 'setdefault',
              'iterrows', 'itertuples'}
SHALLOW = {'list', 'tuple', 'dict', 'set', 'sorted', 'zip', 'enumerate',
           'reversed', 'map', 'filter', 'iter', 'next', 'OrderedDict',
           'defaultdict', 'deque', 'min', 'max'}
LIST_MUT = {'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'reverse',
            'update', 'setdefault', 'popitem', 'add', 'discard'}
ARRAY_MUT = {'sort', 'fill', 'resize', 'put', 'itemset', 'partition', 'setflags'}
FN_MUT = {'shuffle': 0, 'put': 0, 'place': 0, 'copyto': 0, 'fill_diagonal': 0,
          'putmask': 0, 'heappush': 0, 'heappop': 0, 'heapify': 0}
DATA_CLASSES = ('ExpData', 'TabularCPD')
EMPTY = frozenset()
BUILTINS = set(dir(builtins))


class V:
  """own: {(root, kind)}; inner: the roots stored one, two and more levels down;
  num: a scalar; mask: selects a copy."""
  __slots__ = ('own', 'inner', 'num', 'mask')

  def __init__(self, own=EMPTY, inner=(), num=False, mask=False):
    self.own = frozenset(own)
    inner = [frozenset(x) for x in inner]
    self.inner = tuple(inner + [EMPTY] * (3 - len(inner)))
    self.num, self.mask = num, mask

  def names(self):
    return frozenset(r for r, _ in self.own)

  def roots(self):
    return self.names() | self.inner[0] | self.inner[1] | self.inner[2]


FRESH = V()
NUM = V(num=True)


def root(r):
  """A value that is r, and all of whose parts are parts of r."""
  return V({(r, 'obj')}, ({r}, {r}, {r}))


def join(a, b):
  if a is None:
    return b
  if b is None:
    return a
  return V(a.own | b.own, [x | y for x, y in zip(a.inner, b.inner)],
           a.num and b.num, a.mask and b.mask)


def part(v, kind='obj'):
  """Something stored in v."""
  a, b, c = v.inner
  return V({(r, kind) for r in a}, (b, c, c))


def view(v):
  """A view of, or a shallow copy with the elements of, v."""
  return V({(r, 'view') for r, _ in v.own} | {(r, 'view') for r in v.inner[0]},
           v.inner)


def nest(vs):
  """A new container of the values."""
  out = FRESH
  for v in vs:
    out = join(out, V(EMPTY, (v.names(), v.inner[0], v.inner[1] | v.inner[2])))
  return V(EMPTY, out.inner)


def copied(vs):
  """A new container with the elements of the given ones."""
  out = FRESH
  for v in vs:
    out = join(out, V(EMPTY, v.inner))
  return V(EMPTY, out.inner)


class Fn:
  """A function of the package and its summary."""

  def __init__(self, mod, cls, node, name, outer=None):
    self.mod, self.cls, self.node, self.name = mod, cls, node, name
    self.outer = outer
    a = node.args
    self.params = [x.arg for x in a.posonlyargs + a.args]
    self.kwonly = [x.arg for x in a.kwonlyargs]
    self.ann = {x.arg: x.annotation
                for x in a.posonlyargs + a.args + a.kwonlyargs}
    self.muts = {}  # root -> list of (line, what)
    self.ret = V()
    self.attrs = {}  # what __init__ leaves in the attributes

  @property
  def qual(self):
    return f'{self.mod.name}.' + (f'{self.cls.name}.' if self.cls else
                                  '') + self.name


class Ownership:

  def __init__(self, prog):
    self.prog = prog
    self.fns = []
    self.by_node = {}
    self.by_method = {}
    for m in prog.modules.values():
      for f in m.funcs.values():
        self._add(m, None, f, f.name)
      for c in m.classes.values():
        for n, f in c.methods.items():
          self._add(m, c, f, n)
    self.borrowed = {}  # (class, attribute) -> [(method, parameter)]
    self.changed = True
    rounds = 0
    while self.changed and rounds < 12:
      self.changed = False
      rounds += 1
      for f in self.fns:
        Walk(self, f).run()

  def _add(self, m, c, node, name, outer=None):
    f = Fn(m, c, node, name, outer)
    self.fns.append(f)
    self.by_node[node] = f
    if c is not None:
      self.by_method.setdefault(name, []).append(f)
    for x in ast.walk(node):
      if x is not node and isinstance(x, (ast.FunctionDef, ast.Lambda)) and \
          x not in self.by_node:
        self._add(m, None, x, f'{name}.{getattr(x, "name", "<lambda>")}', f)
    return f


def scalar_ann(a):
  if a is None:
    return False
  names = {n.id for n in ast.walk(a) if isinstance(n, ast.Name)}
  names |= {str(n.value) for n in ast.walk(a)
            if isinstance(n, ast.Constant) and n.value is None}
  return bool(names) and names <= SCALARS | {'Optional', 'Union'}


def scalar_items(a):
  """Whether a is the annotation of a container of scalars."""
  if not isinstance(a, ast.Subscript):
    return False
  n = a.value.attr if isinstance(a.value, ast.Attribute) else getattr(
      a.value, 'id', '')
  x = a.slice
  if n == 'Optional':
    return scalar_items(x)
  if n.lower() in ('list', 'sequence', 'iterable', 'set'):
    return scalar_ann(x)
  if n.lower() in ('dict', 'mapping') and isinstance(x, ast.Tuple):
    return scalar_ann(x.elts[-1])
  return False


class Walk:
  """One pass over one function."""

  def __init__(self, own, fn):
    self.o, self.fn = own, fn
    self.env = {}
    self.prog = own.prog

  def run(self):
    fn = self.fn
    a = fn.node.args
    for n in ast.walk(fn.node):
      if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name):
        k = f'{n.value.id}.{n.attr}'
        if fn.cls is not None and fn.params and n.value.id == fn.params[0]:
          self.env[k] = root(k)
    for p in fn.params + fn.kwonly:
      if scalar_ann(fn.ann.get(p)):
        self.env[p] = NUM
      elif scalar_items(fn.ann.get(p)):
        self.env[p] = V({(p, 'obj')})
      else:
        self.env[p] = root(p)
    if a.vararg:
      self.env[a.vararg.arg] = V()
    if a.kwarg:
      self.env[a.kwarg.arg] = V()
    if isinstance(fn.node, ast.Lambda):
      self.returns(self.ev(fn.node.body))
    else:
      self.block(fn.node.body)
    if fn.name == '__init__' and fn.params:
      me = fn.params[0] + '.'
      fn.attrs = {k[len(me):]: v for k, v in self.env.items()
                  if k.startswith(me) and k.count('.') == 1 and
                  fn.params[0] not in {r.split('.')[0] for r in v.roots()}}

  def returns(self, v):
    r = join(self.fn.ret, v)
    if r.own != self.fn.ret.own or r.inner != self.fn.ret.inner:
      self.fn.ret = V(r.own, r.inner)
      self.o.changed = True

  def mutate(self, v, node, what, kinds=('obj', 'view')):
    for r, k in v.own:
      if k in kinds:
        l = self.fn.muts.setdefault(r, [])
        e = (node.lineno, what)
        if e not in l:
          l.append(e)
          self.o.changed = True

  # ---------------------------------------------------------------- statements

  def block(self, body):
    for s in body:
      self.stmt(s)

  def merge(self, e1, e2):
    return {k: join(e1.get(k), e2.get(k)) for k in set(e1) | set(e2)}

  def stmt(self, s):
    if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
      f = self.o.by_node.get(s)
      if f is not None:
        self.nested(f)
      self.env[s.name] = FRESH
    elif isinstance(s, ast.Assign):
      v = self.ev(s.value)
      for t in s.targets:
        self.assign(t, v, s.value)
    elif isinstance(s, ast.AnnAssign):
      if s.value is not None:
        self.assign(s.target, self.ev(s.value), s.value)
    elif isinstance(s, ast.AugAssign):
      v = self.ev(s.value)
      cur = self.ev(s.target, store=True)
      if not cur.num:
        self.mutate(cur, s, f'{ast.unparse(s.target)} {op(s.op)}= ...')
      if isinstance(s.target, ast.Subscript):
        self.mutate(self.ev(s.target.value), s,
                    f'{ast.unparse(s.target)} is assigned')
      if isinstance(s.target, ast.Attribute):
        self.store_attr(s.target, V(), s)
    elif isinstance(s, ast.Return):
      if s.value is not None:
        self.returns(self.ev(s.value))
    elif isinstance(s, ast.Expr):
      self.ev(s.value)
    elif isinstance(s, ast.If):
      self.ev(s.test)
      e0 = dict(self.env)
      self.block(s.body)
      e1, self.env = self.env, e0
      self.block(s.orelse)
      self.env = self.merge(e1, self.env)
    elif isinstance(s, (ast.For, ast.AsyncFor)):
      it = self.ev(s.iter)
      for _ in range(2):
        e0 = dict(self.env)
        self.assign(s.target, self.element(s.iter, it), None)
        self.block(s.body)
        self.env = self.merge(e0, self.env)
      self.block(s.orelse)
    elif isinstance(s, ast.While):
      for _ in range(2):
        e0 = dict(self.env)
        self.ev(s.test)
        self.block(s.body)
        self.env = self.merge(e0, self.env)
      self.block(s.orelse)
    elif isinstance(s, (ast.With, ast.AsyncWith)):
      for i in s.items:
        v = self.ev(i.context_expr)
        if i.optional_vars is not None:
          self.assign(i.optional_vars, v, None)
      self.block(s.body)
    elif isinstance(s, ast.Try):
      e0 = dict(self.env)
      self.block(s.body)
      self.env = self.merge(e0, self.env)
      e1 = dict(self.env)
      out = self.env
      for h in s.handlers:
        self.env = dict(e1)
        self.block(h.body)
        out = self.merge(out, self.env)
      self.env = out
      self.block(s.orelse)
      self.block(s.finalbody)
    elif isinstance(s, ast.Delete):
      for t in s.targets:
        if isinstance(t, ast.Subscript):
          self.mutate(self.ev(t.value), s, f'del {ast.unparse(t)}')
        elif isinstance(t, ast.Attribute):
          self.mutate(self.ev(t.value), s, f'del {ast.unparse(t)}')
        elif isinstance(t, ast.Name):
          self.env.pop(t.id, None)
    elif isinstance(s, (ast.Raise, ast.Assert)):
      for x in ast.iter_child_nodes(s):
        self.ev(x)

  def nested(self, f):
    """A nested function sees the variables of the one around it."""
    w = Walk(self.o, f)
    w.env = dict(self.env)
    own = {x.arg for x in f.node.args.args + f.node.args.kwonlyargs}
    for p in own:
      w.env[p] = FRESH  # its own arguments are judged on their own
    before = dict(f.muts)
    if isinstance(f.node, ast.Lambda):
      w.ev(f.node.body)
    else:
      w.block(f.node.body)
    for r, l in list(f.muts.items()):
      if r not in own:
        for e in l:
          if e not in self.fn.muts.setdefault(r, []):
            self.fn.muts[r].append(e)
            self.o.changed = True
        del f.muts[r]
    for r, l in before.items():
      f.muts.setdefault(r, l)

  def element(self, node, it):
    if isinstance(node, ast.Call):
      n = node.func
      nm = n.id if isinstance(n, ast.Name) else getattr(n, 'attr', '')
      if nm == 'range':
        return NUM
      if nm == 'enumerate' and node.args:
        v = part(self.ev(node.args[0]))
        return ('pair', [NUM, v])
      if nm == 'zip':
        return ('pair', [part(self.ev(a)) for a in node.args
                         if not isinstance(a, ast.Starred)])
      if nm == 'items' and isinstance(n, ast.Attribute):
        return ('pair', [NUM, part(self.ev(n.value))])
    if isinstance(node, (ast.ListComp, ast.GeneratorExp)) and isinstance(
        node.elt, ast.Tuple):
      saved = dict(self.env)
      for g in node.generators:
        self.assign(g.target, self.element(g.iter, self.ev(g.iter)), None)
      vs = [self.ev(x) for x in node.elt.elts]
      self.env = saved
      return ('pair', vs)
    if isinstance(node, (ast.Tuple, ast.List)) and node.elts and all(
        isinstance(x, (ast.Tuple, ast.List)) and
        len(x.elts) == len(node.elts[0].elts) and
        not any(isinstance(y, ast.Starred) for y in x.elts)
        for x in node.elts):
      cols = []
      for col in zip(*(x.elts for x in node.elts)):
        v = None
        for x in col:
          v = join(v, self.ev(x))
        cols.append(v)
      return ('pair', cols)
    return part(it)

  def assign(self, t, v, node):
    if isinstance(v, tuple):
      if isinstance(t, (ast.Tuple, ast.List)) and len(t.elts) == len(v[1]):
        for x, y in zip(t.elts, v[1]):
          self.assign(x, y, None)
        return
      v = nest(v[1])
    if isinstance(t, ast.Name):
      for k in [k for k in self.env if k.startswith(t.id + '.')]:
        del self.env[k]
      self.env[t.id] = v
      if isinstance(node, ast.Call):
        fs, ctor, _ = self.resolve(node)
        if ctor is not None and len(fs) == 1 and not any(
            isinstance(a, ast.Starred) for a in node.args):
          bind = dict(zip(fs[0].params[1:], map(self.ev, node.args)))
          bind.update((k.arg, self.ev(k.value)) for k in node.keywords)
          for k, x in fs[0].attrs.items():
            self.env[f'{t.id}.{k}'] = subst(x, bind)
    elif isinstance(t, (ast.Tuple, ast.List)):
      if isinstance(node, (ast.Tuple, ast.List)) and len(node.elts) == len(
          t.elts):
        vs = [self.ev(x) for x in node.elts]
        for x, y in zip(t.elts, vs):
          self.assign(x, y, None)
        return
      for x in t.elts:
        self.assign(x, part(v), None)
    elif isinstance(t, ast.Starred):
      self.assign(t.value, copied([v]), None)
    elif isinstance(t, ast.Subscript):
      self.ev(t.slice)
      b = self.ev(t.value)
      self.mutate(b, t, f'{ast.unparse(t)} is assigned')
      self.absorb(t.value, v)
    elif isinstance(t, ast.Attribute):
      self.store_attr(t, v, t)

  def store_attr(self, t, v, node):
    b = self.ev(t.value)
    if not t.attr.endswith('_'):  # what fitting a model sets ends like this
      self.mutate(b, node, f'{ast.unparse(t)} is assigned')
    if isinstance(t.value, ast.Name):
      self.env[f'{t.value.id}.{t.attr}'] = v
      if self.is_self(t.value):
        self.hold(t.attr, v)
    else:
      self.absorb(t.value, v)

  def is_self(self, e):
    f = self.fn
    return f.cls is not None and bool(f.params) and isinstance(
        e, ast.Name) and e.id == f.params[0]

  def hold(self, attr, v):
    """An attribute of self is (part of) what a method was given."""
    for r, _ in v.own:
      if r in self.fn.params[1:] + self.fn.kwonly:
        d = self.o.borrowed.setdefault((self.fn.cls, attr), [])
        e = (self.fn.qual, r)
        if e not in d:
          d.append(e)
          self.o.changed = True

  def absorb(self, base, v):
    """What is stored in a variable can be reached from it."""
    key, depth = None, 0
    while isinstance(base, (ast.Attribute, ast.Subscript)):
      if isinstance(base, ast.Attribute) and isinstance(base.value, ast.Name):
        key = f'{base.value.id}.{base.attr}'
      elif key is None:
        depth += 1
      base = base.value
    if not isinstance(base, ast.Name):
      return
    b = self.env.get(key or base.id)
    if b is None:
      if key is None:
        return
      b = part(self.env.get(base.id, FRESH))
    add = list(nest([v]).inner)
    for _ in range(depth):
      add = [EMPTY, add[0], add[1] | add[2]]
    self.env[key or base.id] = V(b.own, [x | y for x, y in zip(b.inner, add)])

  # --------------------------------------------------------------- expressions

  def ev(self, e, store=False):
    if e is None:
      return FRESH
    if isinstance(e, ast.Constant):
      return NUM
    if isinstance(e, ast.Name):
      if e.id in self.env:
        return self.env[e.id]
      if e.id in self.fn.mod.consts:
        return root('global ' + e.id)
      return FRESH
    if isinstance(e, ast.Attribute):
      b = self.ev(e.value)
      if e.attr in ('shape', 'size', 'ndim', 'dtype'):
        return NUM
      if isinstance(e.value, ast.Name):
        k = f'{e.value.id}.{e.attr}'
        if k in self.env:
          return self.env[k]
        if self.is_self(e.value):
          return root(k)
      return part(b)
    if isinstance(e, ast.Subscript):
      b = self.ev(e.value)
      k = self.ev(e.slice)
      s = e.slice
      if isinstance(s, ast.Slice):
        return view(b)
      if isinstance(s, (ast.Compare, ast.List, ast.ListComp, ast.BoolOp)) or \
          isinstance(s, ast.UnaryOp) and isinstance(s.op, ast.Invert) or k.mask:
        return FRESH
      if isinstance(s, ast.Tuple):
        if any(isinstance(x, (ast.List, ast.ListComp)) or self.ev(x).mask or
               not isinstance(x, (ast.Slice, ast.Constant, ast.Name))
               for x in s.elts):
          return FRESH
        if any(isinstance(x, ast.Name) and not self.ev(x).num for x in s.elts):
          return FRESH
        return view(b)
      return part(b)
    if isinstance(e, (ast.BinOp, ast.UnaryOp)):
      vs = [self.ev(x) for x in ast.iter_child_nodes(e)
            if isinstance(x, ast.expr)]
      return V(num=all(v.num for v in vs),
               mask=any(v.mask for v in vs))
    if isinstance(e, ast.Compare):
      for x in [e.left] + e.comparators:
        self.ev(x)
      return V(mask=True)
    if isinstance(e, ast.BoolOp):
      r = None
      for x in e.values:
        r = join(r, self.ev(x))
      return r
    if isinstance(e, ast.IfExp):
      self.ev(e.test)
      return join(self.ev(e.body), self.ev(e.orelse))
    if isinstance(e, (ast.Tuple, ast.List, ast.Set)):
      return nest([self.ev(x) for x in e.elts])
    if isinstance(e, ast.Dict):
      return nest([self.ev(x) for x in e.values])
    if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp,
                      ast.DictComp)):
      saved = dict(self.env)
      for g in e.generators:
        self.assign(g.target, self.element(g.iter, self.ev(g.iter)), None)
        for c in g.ifs:
          self.ev(c)
      if isinstance(e, ast.DictComp):
        self.ev(e.key)
        v = self.ev(e.value)
      else:
        v = self.ev(e.elt)
      self.env = saved
      return nest([v])
    if isinstance(e, ast.NamedExpr):
      v = self.ev(e.value)
      self.assign(e.target, v, e.value)
      return v
    if isinstance(e, ast.Lambda):
      f = self.o.by_node.get(e)
      if f is not None:
        self.nested(f)
      return FRESH
    if isinstance(e, ast.Starred):
      return self.ev(e.value)
    if isinstance(e, ast.Slice):
      for x in (e.lower, e.upper, e.step):
        self.ev(x)
      return NUM
    if isinstance(e, ast.Call):
      return self.call(e)
    if isinstance(e, (ast.JoinedStr, ast.FormattedValue)):
      for x in ast.iter_child_nodes(e):
        if isinstance(x, ast.expr):
          self.ev(x)
      return NUM
    for x in ast.iter_child_nodes(e):
      if isinstance(x, ast.expr):
        self.ev(x)
    return FRESH

  def call(self, e):
    args = [self.ev(a) for a in e.args]
    kw = {k.arg: self.ev(k.value) for k in e.keywords}
    for k in e.keywords:
      if k.arg == 'out':
        self.mutate(kw['out'], e, f'out={ast.unparse(k.value)}')
    targets, ctor, recv = self.resolve(e)
    if targets:
      out = None
      for f in targets:
        out = join(out, self.apply(f, e, args, kw, recv, ctor))
      return out
    f = e.func
    name = f.attr if isinstance(f, ast.Attribute) else getattr(f, 'id', '')
    d = self.prog.dotted(self.fn.mod, f) or ''
    lib = d.split('.')[0] in ('numpy', 'scipy', 'pandas', 'collections',
                              'random', 'heapq', 'itertools', 'matplotlib',
                              'sklearn', 'copy', 'math')
    if isinstance(f, ast.Name) or lib:
      if name in FN_MUT and args and lib:
        self.mutate(args[FN_MUT[name]], e, f'{d} of it')
        return FRESH
      if name in ALIAS_FN and args:
        return V(args[0].own, args[0].inner)
      if name in ('dict', 'OrderedDict') and e.args and isinstance(
          e.args[0], ast.Call) and self.prog.dotted(
              self.fn.mod, e.args[0].func) == 'zip' and len(e.args[0].args) == 2:
        return copied([self.ev(e.args[0].args[1])] + list(kw.values()))
      if name in SHALLOW:
        return copied(args)
      if name in ('len', 'int', 'float', 'str', 'bool', 'sum', 'abs', 'round'):
        return NUM
      if not lib and isinstance(f, ast.Name) and f.id not in BUILTINS:
        return self.unknown(args, kw)
      return V(mask=lib)
    if not isinstance(f, ast.Attribute) or isinstance(
        f.value, ast.Name) and f'{f.value.id}.{f.attr}' in self.env and \
        self.is_self(f.value):
      self.ev(f)
      return self.unknown(args, kw)  # a function held by a value
    # a method of some value
    b = self.ev(f.value) if isinstance(f, ast.Attribute) else self.ev(f)
    if name in LIST_MUT and not self.behaves(name):
      self.mutate(b, e, f'{ast.unparse(f)}(...)', ('obj',))
      for v in args[1:] if name in ('setdefault', 'insert') else args:
        if isinstance(f, ast.Attribute):
          self.absorb(f.value, v)
    elif name in ARRAY_MUT:
      self.mutate(b, e, f'{ast.unparse(f)}(...)')
    for k in e.keywords:
      if k.arg == 'inplace' and not (isinstance(k.value, ast.Constant) and
                                     not k.value.value):
        self.mutate(b, e, f'{ast.unparse(f)}(inplace=...)')
    if name in ALIAS_METH:
      return V(b.own, b.inner)
    if name in INNER_METH:
      r = part(b)
      for v in args[1:] if name in ('setdefault', 'get', 'pop') else ():
        r = join(r, v)
      return r
    if name == 'astype' and any(k.arg == 'copy' for k in e.keywords):
      return V(b.own, b.inner)
    return FRESH

  def unknown(self, args, kw):
    """A function that is not known may return one of its arguments."""
    out = FRESH
    for v in list(args) + list(kw.values()):
      out = join(out, v)
    return V(out.own, out.inner)

  def local(self, name):
    """The function that is defined under a name here or in a function around."""
    f = self.fn
    while f is not None:
      for x in self.o.fns:
        if x.outer is f and getattr(x.node, 'name', None) == name:
          return x
      f = f.outer
    return None

  def resolve(self, e):
    """(functions of the package that may be called, constructed class, self)"""
    f = e.func
    d = self.prog.dotted(self.fn.mod, f)
    if isinstance(f, ast.Name) and f.id in self.env:
      d = None
      x = self.local(f.id)
      if x is not None:
        return [x], None, None
    r = self.prog.resolve_dotted(d) if d else None
    if r and r[0] == 'func':
      x = self.o.by_node.get(r[1][1])
      return ([x] if x else []), None, None
    if r and r[0] == 'class':
      k, init = r[1].find('__init__')
      x = self.o.by_node.get(init) if init is not None else None
      return ([x] if x else []), r[1], None
    if isinstance(f, ast.Attribute):
      if isinstance(f.value, ast.Call) and isinstance(
          f.value.func, ast.Name) and f.value.func.id == 'super' and self.fn.cls:
        for b in self.fn.cls.mro()[1:]:
          if f.attr in b.methods:
            me = self.env.get(self.fn.params[0]) if self.fn.params else FRESH
            return [self.o.by_node[b.methods[f.attr]]], None, me
        return [], None, None
      recv = self.ev(f.value)
      if isinstance(f.value, ast.Name) and self.fn.cls is not None and \
          self.fn.params and f.value.id == self.fn.params[0]:
        fs = self.dispatch(self.fn.cls, f.attr)
        return fs, None, recv
      c = self.type_of(f.value)
      if c is not None:
        return self.dispatch(c, f.attr), None, recv
    return [], None, None

  def behaves(self, name):
    """The methods of arms, estimators and the like change their receiver."""
    return any(f.cls.name not in DATA_CLASSES
               for f in self.o.by_method.get(name, []))

  def dispatch(self, cls, name):
    out = []
    for c in [cls] + list(self.prog.subclasses(cls)):
      k, m = c.find(name)
      if m is not None:
        x = self.o.by_node.get(m)
        if x is not None and x not in out:
          out.append(x)
    return out

  def type_of(self, e):
    """The class of the package that an expression is annotated with."""
    if isinstance(e, ast.Name):
      a = self.fn.ann.get(e.id)
      if a is None:
        return None
      if isinstance(a, ast.Constant) and isinstance(a.value, str):
        try:
          a = ast.parse(a.value, mode='eval').body
        except SyntaxError:
          return None
      d = self.prog.dotted(self.fn.mod, a)
      r = self.prog.resolve_dotted(d) if d else None
      return r[1] if r and r[0] == 'class' else None
    return None

  def apply(self, f, e, args, kw, recv, ctor):
    """The effect of a call, by the summary of the function."""
    ps = list(f.params)
    static = f.cls is not None and f.name in f.cls.static
    bind = {}
    if f.cls is not None and not static:
      if not ps:
        return FRESH
      bind[ps.pop(0)] = recv if recv is not None else FRESH
    for p, v in zip(ps, args):
      bind[p] = v
    for k, v in kw.items():
      if k in ps + f.kwonly:
        bind[k] = v
    for r, l in f.muts.items():
      if f.params and r == f.params[0] and f.cls is not None and \
          f.cls.name not in DATA_CLASSES:
        continue  # what has behaviour changes its own state
      if r in bind:
        self.mutate(bind[r], e, f'{f.qual} modifies its {r}: {l[0][1]}')
    if ctor is not None:
      return nest(bind.values())
    return subst(f.ret, bind)


def subst(v, bind):
  """A value of a function, for the arguments of a call."""
  out = FRESH
  for r, k in v.own:
    if r in bind:
      out = join(out, bind[r])
  own = out.own
  inner = [EMPTY] * 3
  for d in range(3):
    for r in v.inner[d]:
      if r in bind:
        b = bind[r]
        inner[d] |= b.roots() if d else b.names() | b.inner[0]
        for q in range(d + 1, 3):
          inner[q] |= b.roots()
  return V(own, [x | y for x, y in zip(out.inner, inner)])


def op(o):
  return {'Add': '+', 'Sub': '-', 'Mult': '*', 'Div': '/'}.get(
      type(o).__name__, type(o).__name__)

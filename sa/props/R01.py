"""Runs with the same seeds are the same: where randomness may come from."""
import ast

from effects import MUT

NUMPY = 'numpy.random.'
MAKERS = ('default_rng', 'RandomState', 'Generator', 'SeedSequence', 'PCG64', 'MT19937',
          'Philox', 'SFC64', 'PCG64DXSM', 'BitGenerator')
STATE = ('seed', 'set_state', 'set_bit_generator')
SOURCES = ('random.', 'secrets.', 'uuid.', 'os.urandom', 'os.getrandom',
           'numpy.random.SystemRandom', 'torch.', 'tensorflow.', 'jax.')
UNSTABLE = ('time.', 'datetime.', 'os.getpid', 'threading.get_ident', 'id', 'hash',
            'os.times', 'os.environ', 'os.getenv')
# modules whose sets hold names or arms, of which the order varies between runs
NAMED = ('bandits', 'scm', 'paper_utils', 'example_scm', 'plotting_utils')
ORDERLESS = ('sorted', 'len', 'any', 'all', 'set', 'frozenset', 'min', 'max', 'sum',
             'isinstance', 'bool', 'dict.fromkeys')
ORDERED = ('list', 'tuple', 'enumerate', 'zip', 'map', 'filter', 'iter', 'next',
           'numpy.array', 'numpy.asarray', 'numpy.fromiter', 'numpy.stack',
           'numpy.concatenate', 'numpy.column_stack', 'numpy.random.choice',
           'numpy.random.permutation', 'str', 'repr', 'reversed')
EFFECTS = ('append', 'extend', 'insert', 'update', 'write', 'put', 'popleft',
           'appendleft', 'generate', 'fit')


def check(rep, prog):
  rep.rule('sources', 'all randomness is from numpy: its global generator, or one '
           'that is made from a seed', 25)
  rep.rule('seeds', 'a generator is made from a seed that is the same in every run', 1)
  rep.rule('reseed', 'the package does not set the state of the global generator', 25)
  rep.rule('import', 'nothing is drawn, and no generator is made, when a module is '
           'imported', 8)
  rep.rule('order', 'nothing depends on the order of a set of names or objects', 20)
  rep.rule('state', 'no function keeps anything for later calls outside of the '
           'objects it is given', 100)
  for m in prog.modules.values():
    local_imports(m)
  draws = drawing(prog)
  for m in prog.modules.values():
    Module(rep, prog, m, draws).all()


def functions(m):
  """The functions of a module with their qualified names."""

  def go(body, pre):
    for s in body:
      if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
        yield pre + s.name, s
      elif isinstance(s, ast.ClassDef):
        yield from go(s.body, pre + s.name + '.')
      elif isinstance(s, (ast.If, ast.Try)):
        yield from go(s.body, pre)
  yield from go(m.tree.body, '')


def local_imports(m):
  """Adds the imports inside of functions to those of the module."""
  for n in ast.walk(m.tree):
    if isinstance(n, ast.Import):
      for a in n.names:
        m.imports.setdefault(a.asname or a.name.split('.')[0],
                             a.name if a.asname else a.name.split('.')[0])
    elif isinstance(n, ast.ImportFrom) and not n.level:
      for a in n.names:
        m.imports.setdefault(a.asname or a.name, f'{n.module}.{a.name}')


def calls(prog, m, node):
  """The dotted names of what is called in a syntax tree."""
  for n in ast.walk(node):
    if isinstance(n, ast.Call):
      d = called(prog, m, n)
      if d:
        yield n, d


def called(prog, m, node):
  """The dotted name of what a call calls, by getattr as well."""
  f = node.func
  if isinstance(f, ast.Call) and isinstance(f.func, ast.Name) and \
      f.func.id == 'getattr' and len(f.args) > 1 and isinstance(
          f.args[1], ast.Constant):
    d = prog.dotted(m, f.args[0])
    return d and f'{d}.{f.args[1].value}'
  return prog.dotted(m, f)


def drawing(prog):
  """The functions and classes that draw or make a generator when called."""
  edges, out = {}, set()
  for m in prog.modules.values():
    for q, f in functions(m):
      name = f'{prog.PKG}.{m.name}.{q}'
      if q.endswith('.__init__'):
        name = name[:-len('.__init__')]
      edges[name] = {d for _, d in calls(prog, m, f)}
      if any(d.startswith(NUMPY) for d in edges[name]):
        out.add(name)
  while True:
    more = {f for f, ds in edges.items() if f not in out and ds & out}
    if not more:
      return out
    out |= more


class Module:

  def __init__(self, rep, prog, m, draws):
    self.rep, self.prog, self.m, self.draws = rep, prog, m, draws
    self.up = {c: p for p in ast.walk(m.tree) for c in ast.iter_child_nodes(p)}
    self.local = {}

  def at(self, node):
    f = node
    while f in self.up and not isinstance(f, (ast.FunctionDef, ast.ClassDef)):
      f = self.up[f]
    name = getattr(f, 'name', None)
    return f'{self.m.name}{"." + name if name else ""} (line {node.lineno})'

  def dotted(self, node):
    """The dotted name, unless it starts at a local variable."""
    r = node
    while isinstance(r, (ast.Attribute, ast.Subscript)):
      r = r.value
    if not isinstance(r, ast.Name):
      return None
    f = node
    while f in self.up:
      f = self.up[f]
      if isinstance(f, (ast.FunctionDef, ast.Lambda)) and r.id in self.names(f):
        return None
    return self.prog.dotted(self.m, node)

  def names(self, f):
    """The parameters and local variables of a function."""
    if f not in self.local:
      a = f.args
      out = {p.arg for p in a.posonlyargs + a.args + a.kwonlyargs}
      out |= {p.arg for p in (a.vararg, a.kwarg) if p}
      if isinstance(f, ast.FunctionDef):
        for n in ast.walk(f):
          if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.add(n.id)
      self.local[f] = out
    return self.local[f]

  def all(self):
    rep = self.rep
    for n in ast.walk(self.m.tree):
      if isinstance(n, (ast.Attribute, ast.Name)) and isinstance(
          n.ctx, ast.Load) and not isinstance(self.up.get(n), ast.Attribute):
        d = self.dotted(n)
        if d is None:
          continue
        if d.startswith(NUMPY):
          rep.ok('sources', self.at(n), d)
          rep.check('reseed', self.at(n), d[len(NUMPY):] not in STATE,
                    f'{d} changes the global generator')
        elif any(d == s or s.endswith('.') and d.startswith(s) for s in SOURCES):
          rep.bad('sources', self.at(n), f'{d} is not governed by any seed')
      if isinstance(n, ast.Call):
        self.generator(n)
        for k in n.keywords:
          if k.arg == 'key':
            bad = [x.id for x in ast.walk(k.value) if isinstance(x, ast.Name)
                   and self.dotted(x) in ('id', 'hash')]
            rep.check('order', self.at(n), not bad,
                      f'is in the order of {", ".join(bad)}')
        d = called(self.prog, self.m, n)
        if d and isinstance(n.func, ast.Call) and d.startswith(NUMPY):
          rep.check('reseed', self.at(n), d[len(NUMPY):] not in STATE,
                    f'{d} changes the global generator')
    self.imported()
    for q, f in functions(self.m):
      rep.fn(f'{self.m.name}.{q}')
      self.state(q, f)
      if self.m.name in NAMED:
        self.sets(q, f)

  # seeds

  def generator(self, n):
    d = self.dotted(n.func) or self.maker(n.func) or isinstance(
        n.func, ast.Call) and called(self.prog, self.m, n)
    if not d or not d.startswith(NUMPY) or d[len(NUMPY):] not in MAKERS:
      return
    args = n.args + [k.value for k in n.keywords]
    at = self.at(n)
    if not args or any(self.nothing(a, n) for a in args):
      return self.rep.bad('seeds', at, f'{d} is not given a seed')
    bad = sorted({x for a in args for x in self.unstable(a, n, set())})
    self.rep.check('seeds', at, not bad,
                   f'the seed of {d} depends on {", ".join(bad)}')

  def function(self, n):
    while n in self.up and not isinstance(n, ast.FunctionDef):
      n = self.up[n]
    return n if isinstance(n, ast.FunctionDef) else None

  def given(self, name, f):
    """All that is assigned to a local variable; None where that is not clear."""
    out = []
    for x in ast.walk(f):
      if isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Store):
        p = self.up[x]
        out.append(p.value if isinstance(p, (ast.Assign, ast.NamedExpr)) else None)
    return out

  def maker(self, e):
    """The maker that a local variable stands for."""
    f = self.function(e)
    if not isinstance(e, ast.Name) or f is None:
      return None
    ds = {v is not None and self.dotted(v) for v in self.given(e.id, f)}
    return ds.pop() if len(ds) == 1 else None

  def nothing(self, a, at):
    """Whether a seed may be None."""
    if isinstance(a, ast.Constant):
      return a.value is None
    if isinstance(a, ast.IfExp):
      return self.nothing(a.body, at) and not self.excludes(a.test) or \
          self.nothing(a.orelse, at) and not self.excludes(a.test)
    if isinstance(a, ast.BoolOp):
      return isinstance(a.op, ast.Or) and self.nothing(a.values[-1], at)
    f = self.function(at)
    if isinstance(a, ast.Name) and f is not None:
      g = f.args
      ps = g.posonlyargs + g.args
      none = {p.arg for p, d in list(zip(ps[len(ps) - len(g.defaults):], g.defaults))
              + list(zip(g.kwonlyargs, g.kw_defaults))
              if isinstance(d, ast.Constant) and d.value is None}
      # a user may choose to give no seed, the package may not
      return a.id in none and not self.given(a.id, f) and not any(
          self.excludes(x.test) for x in ast.walk(f)
          if isinstance(x, (ast.If, ast.IfExp))) and self.omitted(f, a.id)
    return False

  def omitted(self, f, name):
    """Whether the package calls f without a value of a parameter."""
    ps = [p.arg for p in f.args.posonlyargs + f.args.args]
    at = ps.index(name) if name in ps else 99
    for m in self.prog.modules.values():
      for n, d in calls(self.prog, m, m.tree):
        if d == f'{self.prog.PKG}.{self.m.name}.{f.name}' and len(
            n.args) <= at and not any(k.arg in (None, name) for k in n.keywords):
          return True
    return False

  def excludes(self, test):
    """Whether a condition is about None."""
    return any(isinstance(x, ast.Constant) and x.value is None
               for x in ast.walk(test))

  def unstable(self, e, at, seen):
    """What an expression depends on that varies between runs."""
    for x in ast.walk(e):
      if isinstance(x, ast.Call):
        d = self.dotted(x.func)
        if d and any(d == s or s.endswith('.') and d.startswith(s)
                     for s in UNSTABLE + SOURCES):
          yield d
      if isinstance(x, ast.Attribute) and (self.dotted(x) or '').startswith(
          'os.environ'):
        yield 'os.environ'
      if isinstance(x, ast.Name) and x.id not in seen:
        seen.add(x.id)
        f = at
        while f in self.up and not isinstance(f, ast.FunctionDef):
          f = self.up[f]
        for s in ast.walk(f):
          if isinstance(s, ast.Assign) and any(
              isinstance(k, ast.Name) and k.id == x.id for k in s.targets):
            yield from self.unstable(s.value, at, seen)

  # what is evaluated at import

  def imported(self):
    for e, what in self.early(self.m.tree.body, self.m.name):
      bad = []
      for x in walk_now(e):
        if isinstance(x, ast.Call):
          d = self.prog.dotted(self.m, x.func)
          if d and (d.startswith(NUMPY) or d in self.draws):
            bad.append((d, x.lineno))
      self.rep.check('import', what, not bad, ', '.join(
          f'{d} is called on import (line {k})' for d, k in bad))

  def early(self, body, pre):
    """The expressions that are evaluated when the module is imported."""
    for s in body:
      if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
        for e in s.args.defaults + [d for d in s.args.kw_defaults if d]:
          yield e, f'{pre}.{s.name} (default)'
        for e in s.decorator_list:
          yield e, f'{pre}.{s.name} (decorator)'
      elif isinstance(s, ast.ClassDef):
        yield from self.early(s.body, f'{pre}.{s.name}')
      elif not isinstance(s, (ast.Import, ast.ImportFrom)) and not main_guard(s):
        yield s, f'{pre} (line {s.lineno})'

  # state between calls

  def state(self, q, f):
    """What f keeps outside of its arguments."""
    at = f'{self.m.name}.{q}'
    why = []
    for d in f.decorator_list:
      name = self.prog.dotted(self.m, d.func if isinstance(d, ast.Call) else d) or ''
      if name.startswith('functools.') and name.endswith('cache') and \
          f'{self.prog.PKG}.{self.m.name}.{q}' in self.draws:
        why.append('repeats the draws of its first call')
      elif name.startswith('functools.') and name.endswith('cache') and any(
          isinstance(r, ast.Return) and r.value is not None and self.changeable(
              r.value) for r in ast.walk(f)):
        why.append('gives the same object to every caller')
    shared = set()
    for n in ast.walk(f):
      if isinstance(n, ast.Global):
        shared |= set(n.names)
    a = f.args
    ps = a.posonlyargs + a.args
    defaults = list(zip(ps[len(ps) - len(a.defaults):], a.defaults)) + [
        (p, d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d]
    fresh = {p.arg for p, d in defaults if mutable(d)}
    c = self.up.get(f)
    own = set()
    if isinstance(c, ast.ClassDef):
      held = {k.id for s in c.body if isinstance(s, ast.Assign) and mutable(s.value)
              for k in s.targets if isinstance(k, ast.Name)}
      made = {k.attr for g in c.body if isinstance(g, ast.FunctionDef)
              and g.name == '__init__' for k in ast.walk(g)
              if isinstance(k, ast.Attribute) and isinstance(k.ctx, ast.Store)}
      own = held - made
    for n in ast.walk(f):
      if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id in shared:
        why.append(f'line {n.lineno}: assigns the global {n.id}')
      t = None
      if isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(
          n.ctx, (ast.Store, ast.Del)):
        t = n.value
      elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and \
          n.func.attr in MUT:
        t = n.func.value
      if t is None:
        continue
      r, attr = t, None
      while isinstance(r, (ast.Attribute, ast.Subscript)):
        attr = r.attr if isinstance(r, ast.Attribute) else attr
        r = r.value
      if isinstance(r, ast.Call) and ast.unparse(r.func) == 'type' and not (
          r is t and isinstance(n, ast.Call)):
        why.append(f'line {n.lineno}: changes a class')
      if not isinstance(r, ast.Name):
        continue
      if r.id in fresh and not self.reassigned(f, r.id):
        why.append(f'line {n.lineno}: changes the default of {r.id}')
      elif attr in own and r.id == (ps[0].arg if ps else None):
        why.append(f'line {n.lineno}: changes the {attr} of the class')
      elif attr == '__class__' or r.id == 'cls' and ps and ps[0].arg == 'cls':
        why.append(f'line {n.lineno}: changes a class')
      elif self.dotted(t) is not None and (
          r.id in self.m.consts or r.id in self.m.classes or
          r.id in self.m.funcs or r.id in shared):
        why.append(f'line {n.lineno}: changes {r.id} of the module')
    self.rep.check('state', at, not why, '; '.join(why))

  def changeable(self, e):
    """Whether an expression evidently makes an object that can be changed."""
    d = self.dotted(e.func) if isinstance(e, ast.Call) else None
    return mutable(e) or d is not None and d.startswith('numpy.') and d[
        6:] in ('full', 'ones', 'arange', 'eye', 'linspace', 'concatenate', 'stack',
                'column_stack', 'asarray', 'hstack', 'vstack', 'repeat', 'tile')

  def reassigned(self, f, name):
    return any(isinstance(n, ast.Name) and n.id == name and isinstance(
        n.ctx, ast.Store) for n in ast.walk(f))

  # sets

  def sets(self, q, f):
    """Each use of a set in f that depends on its order."""
    typed = self.set_names(f)
    bad = []
    for n in ast.walk(f):
      if not isinstance(n, ast.expr) or not self.is_set(n, typed):
        continue
      why = self.ordered_use(n, f)
      if why:
        bad.append(f'line {n.lineno}: {ast.unparse(n)[:60]} {why}')
    self.rep.check('order', f'{self.m.name}.{q}', not bad, '; '.join(bad))

  def set_names(self, f):
    """The local variables of f, and attributes, that only ever hold sets."""
    values = {}
    scope = [f]
    c = self.up.get(f)
    if isinstance(c, ast.ClassDef):
      scope.append(c)
    for g in scope:
      for s in ast.walk(g):
        ts = s.targets if isinstance(s, ast.Assign) else [s.target] if isinstance(
            s, ast.AnnAssign) else []
        for k in ts:
          if isinstance(k, (ast.Name, ast.Attribute)) and (
              g is f or isinstance(k, ast.Attribute)):
            values.setdefault(ast.unparse(k), []).append(s.value)
    for p in f.args.args + f.args.kwonlyargs:
      if p.annotation is not None and ast.unparse(p.annotation).split('[')[0].split(
          '.')[-1] in ('Set', 'set', 'FrozenSet', 'frozenset', 'AbstractSet'):
        values[p.arg] = [ast.Set(elts=[ast.Name(id='_')])]
      else:
        values.setdefault(p.arg, []).append(None)
    typed = set()
    while True:
      more = {k for k, vs in values.items() if k not in typed and all(
          v is not None and self.is_set(v, typed) for v in vs)}
      if not more:
        return typed
      typed |= more

  def is_set(self, e, typed):
    if isinstance(e, ast.Set):
      return not all(isinstance(x, ast.Constant) and isinstance(
          x.value, (int, float)) for x in e.elts)
    if isinstance(e, ast.SetComp):
      return not numeric(e)
    if isinstance(e, ast.Call):
      d = self.dotted(e.func)
      if d in ('set', 'frozenset'):
        return not (e.args and numeric(e.args[0]))
      if isinstance(e.func, ast.Attribute) and e.func.attr in (
          'union', 'intersection', 'difference', 'symmetric_difference', 'copy'):
        return self.is_set(e.func.value, typed)
      return False
    if isinstance(e, ast.BinOp) and isinstance(
        e.op, (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)):
      return self.is_set(e.left, typed)
    if isinstance(e, (ast.Name, ast.Attribute)):
      return ast.unparse(e) in typed
    if isinstance(e, ast.IfExp):
      return self.is_set(e.body, typed) and self.is_set(e.orelse, typed)
    return False

  def ordered_use(self, n, f):
    p = self.up.get(n)
    if isinstance(p, ast.For) and p.iter is n:
      return self.loop(p)
    if isinstance(p, ast.comprehension) and p.iter is n:
      c = self.up[p]
      if isinstance(c, (ast.SetComp, ast.DictComp)) or self.orderless(c):
        return None
      return 'is listed in its order'
    if isinstance(p, ast.Starred) and not isinstance(self.up.get(p), ast.Set):
      return None if self.orderless(self.up[p]) else 'is unpacked in its order'
    if isinstance(p, ast.Call) and n in p.args:
      d = self.dotted(p.func)
      if d in ORDERED and not self.orderless(p):
        q = self.up.get(p)
        if isinstance(q, ast.For) and q.iter is p:
          return self.loop(q)
        return f'goes to {d} in its order'
      if isinstance(p.func, ast.Attribute) and p.func.attr in ('join', 'extend'):
        return f'goes to {p.func.attr} in its order'
    if isinstance(p, ast.Attribute) and p.attr == 'pop' and isinstance(
        self.up.get(p), ast.Call):
      return 'loses an arbitrary element'
    return None

  def orderless(self, c):
    p = self.up.get(c)
    if isinstance(p, ast.Call) and c in p.args:
      return self.dotted(p.func) in ORDERLESS
    return isinstance(p, ast.Compare) and any(
        isinstance(o, (ast.In, ast.NotIn)) for o in p.ops) and c in p.comparators

  def loop(self, s):
    """Why the order in which the elements of a loop come matters, if it does."""
    draw = {d.split('.')[-1] for d in self.draws}
    f = self.function(s)
    for b in s.body:
      for x in ast.walk(b):
        if isinstance(x, (ast.Break, ast.Yield)):
          return 'is searched in its order'
        if isinstance(x, ast.Return) and x.value is not None and not isinstance(
            x.value, ast.Constant):
          return 'is searched in its order'
        if not isinstance(x, ast.Call):
          continue
        d = called(self.prog, self.m, x)
        if isinstance(x.func, ast.Attribute) and x.func.attr in EFFECTS:
          return f'determines the order of {x.func.attr}'
        if d and (d.startswith(NUMPY) or d in self.draws) or isinstance(
            x.func, ast.Attribute) and x.func.attr in draw:
          return 'determines the order of draws'
        if isinstance(x.func, ast.Subscript) or isinstance(
            x.func, ast.Name) and f is not None and x.func.id in self.names(f):
          return f'determines the order of calls of {ast.unparse(x.func)}'
    return None


def numeric(e):
  """The elements are evidently numbers."""
  if isinstance(e, (ast.SetComp, ast.GeneratorExp, ast.ListComp)):
    return numeric(e.generators[0].iter) and not any(
        isinstance(x, (ast.Subscript, ast.Attribute, ast.JoinedStr)) or isinstance(
            x, ast.Constant) and isinstance(x.value, str) for x in ast.walk(e.elt))
  return isinstance(e, ast.Call) and ast.unparse(e.func) in (
      'range', 'np.arange', 'np.unique', 'np.where')


def mutable(e):
  return isinstance(e, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp,
                        ast.SetComp)) or isinstance(e, ast.Call) and ast.unparse(
                            e.func).split('.')[-1] in (
                                'list', 'dict', 'set', 'defaultdict', 'array', 'zeros',
                                'OrderedDict', 'deque', 'Counter', 'empty')


def main_guard(s):
  return isinstance(s, ast.If) and '__name__' in ast.unparse(s.test)


def walk_now(e):
  """The nodes that are evaluated with e: not the bodies of functions in it."""
  todo = [e]
  while todo:
    x = todo.pop()
    yield x
    if isinstance(x, (ast.Lambda, ast.FunctionDef)):
      todo += x.args.defaults + [d for d in x.args.kw_defaults if d]
    else:
      todo += list(ast.iter_child_nodes(x))

"""Loads and resolves the analysed package from its current source."""
import ast
import os


class AnalysisError(Exception):
  """The analysis could not decide (not a verdict about the code)."""


class Plain(ast.NodeTransformer):
  """Loops that check their condition in the body as those that have it."""

  def visit_While(self, n):
    self.generic_visit(n)
    f = n.body[0]
    if isinstance(n.test, ast.Constant) and n.test.value and not n.orelse and \
        isinstance(f, ast.If) and len(f.body) == 1 and isinstance(
            f.body[0], ast.Break) and len(n.body) > 1 - bool(f.orelse):
      test = ast.copy_location(ast.UnaryOp(ast.Not(), f.test), f.test)
      return ast.copy_location(
          ast.While(test, f.orelse + n.body[1:], []), n)
    return n

  def visit_For(self, n):
    """A loop over itertools.count is one over its counter."""
    c = n.iter
    if isinstance(c, ast.Call) and isinstance(n.target, ast.Name) and \
        ast.unparse(c.func) in ('itertools.count', 'count') and \
        len(c.args) < 3 and not c.keywords and not n.orelse and \
        (ast.unparse(c.func) != 'count' or 'count' in self.counts):
      first = c.args[0] if c.args else ast.Constant(0)
      step = c.args[1] if len(c.args) > 1 else ast.Constant(1)
      at = lambda x: ast.fix_missing_locations(ast.copy_location(x, n))
      name = lambda ctx: ast.Name(n.target.id, ctx)
      init = at(ast.Assign([name(ast.Store())],
                           ast.BinOp(first, ast.Sub(), step)))
      grow = at(ast.Assign([name(ast.Store())],
                           ast.BinOp(name(ast.Load()), ast.Add(), step)))
      f = n.body[0]
      if isinstance(f, ast.If) and len(f.body) == 1 and isinstance(
          f.body[0], ast.Break) and n.target.id not in {
              x.id for x in ast.walk(f.test) if isinstance(x, ast.Name)}:
        body = [f, grow] + n.body[1:]
      else:
        body = [grow] + n.body
      loop = at(ast.While(ast.Constant(True), body, []))
      return [init, self.visit_While(loop)]
    self.generic_visit(n)
    return n

  counts = ()

  def visit_ImportFrom(self, n):
    if n.module == 'itertools':
      self.counts = {a.name for a in n.names if not a.asname}
    return n

  def visit_FunctionDef(self, n):
    """A generator returns an iterator over the list of what it yields."""
    self.generic_visit(n)
    if any('contextmanager' in ast.unparse(d) for d in n.decorator_list):
      return n
    inner = list(own(n))
    ys = [x for x in inner if isinstance(x, (ast.Yield, ast.YieldFrom))]
    if not ys or len(ys) != sum(
        isinstance(x, ast.Expr) and x.value in ys for x in inner) or any(
            isinstance(x, ast.While) and isinstance(x.test, ast.Constant)
            for x in inner):
      return n
    return ast.fix_missing_locations(Listed(f'yielded at {n.lineno}').function(n))


def own(n):
  """The nodes of a function that are not in functions in it."""
  for x in ast.iter_child_nodes(n):
    yield x
    if not isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda,
                          ast.ClassDef)):
      yield from own(x)


class Listed(ast.NodeTransformer):

  def __init__(self, name):
    self.name = name

  def function(self, n):
    load = ast.Name(self.name, ast.Load())
    done = lambda: ast.Return(ast.Call(ast.Name('iter', ast.Load()), [load], []))
    self.done = done
    body = []
    for s in n.body:
      r = self.visit(s)
      body += r if isinstance(r, list) else [r]
    at = lambda x: ast.copy_location(x, n.body[0])
    n.body = [at(ast.Assign([ast.Name(self.name, ast.Store())],
                            ast.List([], ast.Load())))] + body + [at(done())]
    return n

  def visit_FunctionDef(self, n):
    return n

  visit_Lambda = visit_ClassDef = visit_FunctionDef

  def visit_Return(self, n):
    return ast.copy_location(self.done(), n)

  def visit_Expr(self, n):
    v = n.value
    if not isinstance(v, (ast.Yield, ast.YieldFrom)):
      return n
    how = 'append' if isinstance(v, ast.Yield) else 'extend'
    f = ast.Attribute(ast.Name(self.name, ast.Load()), how, ast.Load())
    return ast.copy_location(ast.Expr(ast.Call(
        f, [v.value or ast.Constant(None)], [])), n)


class ClassInfo:

  def __init__(self, node, module):
    self.node, self.module, self.name = node, module, node.name
    self.qual = module.name + '.' + node.name
    self.methods, self.props, self.setters = {}, set(), set()
    self.readonly = set()  # properties without a setter
    self.static, self.classm = set(), set()
    self.attrs = {}  # class-level assignments
    self.fields = []  # dataclass fields
    self.dataclass = False
    for d in node.decorator_list:
      n = ast.unparse(d)
      if 'dataclass' in n:
        self.dataclass = True
    for s in node.body:
      if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
        decs = [ast.unparse(d) for d in s.decorator_list]
        if any(d.endswith('.setter') for d in decs):
          self.setters.add(s.name)
          self.methods[s.name + '=set'] = s
          self.readonly.discard(s.name)
          continue
        if 'property' in decs or any('cached_property' in d for d in decs):
          self.props.add(s.name)
          if 'property' in decs:
            self.readonly.add(s.name)
        if 'staticmethod' in decs:
          self.static.add(s.name)
        if 'classmethod' in decs:
          self.classm.add(s.name)
        self.methods[s.name] = s
      elif isinstance(s, ast.Assign):
        for t in s.targets:
          if isinstance(t, ast.Name):
            self.attrs[t.id] = s.value
      elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
        self.fields.append((s.target.id, s.annotation, s.value))
        if s.value is not None:
          self.attrs[s.target.id] = s.value
    self.bases = []

  def mro(self):
    out = [self]
    for b in self.bases:
      if isinstance(b, ClassInfo):
        for c in b.mro():
          if c not in out:
            out.append(c)
    return out

  def find(self, name):
    for c in self.mro():
      if name in c.methods:
        return c, c.methods[name]
    return None, None

  def is_subclass(self, other):
    return other in self.mro()

  @property
  def is_enum(self):
    return any(
        isinstance(b, str) and b in ('enum.Enum', 'enum.IntEnum', 'enum.StrEnum')
        for c in self.mro() for b in c.bases)

  def __repr__(self):
    return f'<class {self.name}>'


class ModuleInfo:

  def __init__(self, name, path, tree, src):
    self.name, self.path, self.tree, self.src = name, path, tree, src
    self.imports = {}  # local name -> dotted external or module name
    self.funcs, self.classes, self.consts = {}, {}, {}


class Program:
  PKG = 'causal_effect_bandits'

  def __init__(self, root='/repo'):
    self.root = root
    self.modules = {}
    self.classes = {}
    d = os.path.join(root, self.PKG)
    if not os.path.isdir(d):
      raise AnalysisError(f'package directory {d} is missing')
    for base, _, files in sorted(os.walk(d)):
      for f in sorted(files):
        if not f.endswith('.py') or f.endswith('_test.py') or \
            f.startswith('test_') and f != 'test_utils.py':
          continue
        p = os.path.join(base, f)
        src = open(p).read()
        try:
          tree = ast.parse(src, p)
        except SyntaxError as e:
          raise AnalysisError(f'{p} does not parse: {e}')
        tree = Plain().visit(tree)
        rel = os.path.relpath(p, d)[:-3].replace(os.sep, '.')
        m = ModuleInfo(rel, p, tree, src)
        self.modules[rel] = m
    for m in self.modules.values():
      self._scan(m)
    for c in self.classes.values():
      for b in c.node.bases:
        c.bases.append(self._base(c.module, b))

  def _scan(self, m):
    self._scan_body(m, m.tree.body)

  def _scan_body(self, m, body):
    for s in body:
      if isinstance(s, ast.Import):
        for a in s.names:
          if a.asname:
            m.imports[a.asname] = a.name
          else:
            m.imports[a.name.split('.')[0]] = a.name.split('.')[0]
      elif isinstance(s, ast.ImportFrom):
        base = s.module or ''
        if s.level:
          base = self.PKG + ('.' + base if base else '')
        for a in s.names:
          m.imports[a.asname or a.name] = (base + '.' if base else '') + a.name
      elif isinstance(s, ast.FunctionDef):
        m.funcs[s.name] = s
      elif isinstance(s, ast.ClassDef):
        c = ClassInfo(s, m)
        m.classes[s.name] = c
        self.classes[c.qual] = c
      elif isinstance(s, ast.Assign):
        for t in s.targets:
          if isinstance(t, ast.Name):
            m.consts[t.id] = s.value
      elif isinstance(s, ast.AnnAssign) and isinstance(
          s.target, ast.Name) and s.value is not None:
        m.consts[s.target.id] = s.value
      elif isinstance(s, (ast.If, ast.Try)):
        self._scan_body(m, s.body)

  def resolve_dotted(self, dotted):
    """A package module, class or function for a dotted name, else None."""
    pre = self.PKG + '.'
    if dotted == self.PKG:
      return ('pkg', None)
    if not dotted.startswith(pre):
      return None
    rest = dotted[len(pre):]
    if rest in self.modules:
      return ('mod', self.modules[rest])
    if '.' in rest:
      mod, name = rest.rsplit('.', 1)
      m = self.modules.get(mod)
      if m is not None:
        if name in m.classes:
          return ('class', m.classes[name])
        if name in m.funcs:
          return ('func', (m, m.funcs[name]))
        if name in m.consts:
          return ('const', (m, name))
        if name in m.imports:
          return self.resolve_dotted(m.imports[name]) or ('ext', m.imports[name])
    return None

  def dotted(self, m, node):
    """The dotted name of a Name/Attribute chain in module m, or None."""
    if isinstance(node, ast.Name):
      if node.id in m.imports:
        return m.imports[node.id]
      if node.id in m.classes or node.id in m.funcs or node.id in m.consts:
        return f'{self.PKG}.{m.name}.{node.id}'
      return node.id
    if isinstance(node, ast.Attribute):
      b = self.dotted(m, node.value)
      return b and b + '.' + node.attr
    if isinstance(node, ast.Subscript):
      return self.dotted(m, node.value)
    return None

  def _base(self, m, node):
    d = self.dotted(m, node)
    if d is None:
      return ast.unparse(node)
    r = self.resolve_dotted(d)
    if r and r[0] == 'class':
      return r[1]
    return d

  def cls(self, name):
    for q, c in self.classes.items():
      if q == name or c.name == name:
        return c
    raise AnalysisError(f'class {name} not found in the package')

  def func(self, mod, name):
    m = self.modules.get(mod)
    if m is None:
      raise AnalysisError(f'module {mod} not found in the package')
    if name not in m.funcs:
      raise AnalysisError(f'function {mod}.{name} not found in the package')
    return m, m.funcs[name]

  def subclasses(self, c):
    return [x for x in self.classes.values() if c in x.mro()[1:]]

  def annotation(self, m, node):
    """A term type for an annotation."""
    if node is None:
      return None
    if isinstance(node, ast.Constant) and isinstance(node.value, str):
      try:
        node = ast.parse(node.value, mode='eval').body
      except SyntaxError:
        return None
    if isinstance(node, ast.BinOp) and isinstance(node.op, ast.BitOr):
      l, r = self.annotation(m, node.left), self.annotation(m, node.right)
      return l if r in (None, 'none') else r
    if isinstance(node, ast.Subscript):
      d = (self.dotted(m, node.value) or '').split('.')[-1]
      sl = node.slice
      if d == 'Optional':
        return self.annotation(m, sl)
      if d in ('List', 'list', 'Sequence', 'Iterable'):
        return ('list', self.annotation(m, sl))
      if d == 'Callable':
        if isinstance(sl, ast.Tuple):
          return ('callable', self.annotation(m, sl.elts[1]))
        return ('callable', None)
      if d in ('Tuple', 'tuple'):
        return ('tuple', None)
      return None
    d = self.dotted(m, node)
    if d is None:
      return None
    if d in ('int', 'float'):
      return 'num'
    if d in ('str', 'bool'):
      return d
    if d.endswith('ndarray'):
      return 'arr'
    r = self.resolve_dotted(d)
    if r and r[0] == 'class':
      c = r[1]
      return ('enum', c) if c.is_enum else ('cls', c)
    return None

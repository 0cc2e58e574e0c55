"""Which variables of a function may be names for the same array."""
import ast

SAME = {'asarray', 'asanyarray', 'ravel', 'squeeze', 'atleast_1d', 'atleast_2d'}


def storage(n):
  """Whether n names a variable, an attribute or a part of one."""
  while isinstance(n, (ast.Attribute, ast.Subscript)):
    n = n.value
  return isinstance(n, ast.Name)


def place(e):
  """The storage that the value of e is, or is a part of."""
  while isinstance(e, ast.Call) and len(e.args) == 1 and not e.keywords and \
      getattr(e.func, 'attr', None) in SAME:
    e = e.args[0]
  if isinstance(e, (ast.Name, ast.Attribute)) and storage(e):
    return e
  if isinstance(e, ast.Subscript) and storage(e) and basic(e.slice):
    return e
  return None


def basic(i):
  """An index that selects a view."""
  xs = i.elts if isinstance(i, ast.Tuple) else [i]
  return all(isinstance(x, (ast.Slice, ast.Name)) or isinstance(
      x, ast.Constant) or isinstance(x, ast.UnaryOp) for x in xs)


def pairs(fn):
  """(name, other) for what is assigned as a name for the same array."""
  r = getattr(fn, '_aliases', None)
  if r is not None:
    return r
  out = []
  for s in ast.walk(fn):
    if isinstance(s, ast.AnnAssign) and s.value is not None:
      targets, value = [s.target], s.value
    elif isinstance(s, ast.Assign):
      targets, value = s.targets, s.value
    elif isinstance(s, ast.NamedExpr):
      targets, value = [s.target], s.value
    else:
      continue
    p = place(value)
    ts = [x for x in targets if isinstance(x, (ast.Name, ast.Attribute))]
    for i, a in enumerate(ts):
      for b in ts[i + 1:] + ([p] if p is not None else []):
        out.append((a, b))
    if len(targets) == 1 and isinstance(targets[0], ast.Tuple) and isinstance(
        value, ast.Tuple) and len(value.elts) == len(targets[0].elts):
      for a, b in zip(targets[0].elts, value.elts):
        if isinstance(a, (ast.Name, ast.Attribute)) and place(b) is not None:
          out.append((a, place(b)))
  fn._aliases = out
  return out


def rebound(fn):
  """The names that a function binds to something else."""
  r = getattr(fn, '_rebound', None)
  if r is None:
    r = set()
    for s in ast.walk(fn):
      ts = s.targets if isinstance(s, ast.Assign) else [s.target] if isinstance(
          s, (ast.AnnAssign, ast.For, ast.NamedExpr)) else []
      for x in ts:
        for y in ast.walk(x):
          if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store):
            r.add(y.id)
    fn._rebound = r
  return r


def same(a, b):
  return ast.dump(a).replace('Store()', 'Load()') == ast.dump(b).replace(
      'Store()', 'Load()')

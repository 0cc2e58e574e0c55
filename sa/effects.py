"""Which methods write to their receiver."""
import ast

MUT = {'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'update', 'sort',
       'reverse', 'setdefault', 'popitem', 'add', 'discard', 'fit', 'reset',
       'partial_fit', 'set_params', 'fill', 'resize', '__init__'}


def _root(n):
  while isinstance(n, (ast.Attribute, ast.Subscript)):
    n = n.value
  return n.id if isinstance(n, ast.Name) else None


def writes_self(prog, cls, name, seen=None):
  """Whether cls.name may assign to, or call a mutator on, something of self."""
  seen = seen if seen is not None else set()
  k, fn = cls.find(name)
  if fn is None or (cls.qual, name) in seen:
    return False
  seen.add((cls.qual, name))
  if not fn.args.args:
    return False
  me = fn.args.args[0].arg
  for n in ast.walk(fn):
    if isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(
        n.ctx, (ast.Store, ast.Del)) and _root(n) == me:
      return True
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
      if n.func.attr in MUT and _root(n.func.value) == me:
        return True
      if isinstance(n.func.value, ast.Name) and n.func.value.id == me and \
          writes_self(prog, cls, n.func.attr, seen):
        return True
  return False

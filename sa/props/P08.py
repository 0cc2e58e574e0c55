"""The arms call only methods that every estimator implements."""
import ast

from program import AnalysisError
from props.paramlib import estimators


def check(rep, prog):
  rep.rule('implemented', 'a method that an arm calls on an estimator has a body in '
           'every estimator', 25)
  rep.rule('arguments', 'the call fits the parameters of the method', 25)
  sites = calls(prog)
  names = sorted({n for n, _, _ in sites})
  if not {'fit', 'reset', 'calculate_score', 'has_enough_samples'} <= set(names):
    raise AnalysisError(f'calls of estimators found: {names}')
  for cls in estimators(prog, least=7):
    for name in names:
      k, m = cls.find(name)
      w = f'{cls.module.name}.{cls.name}.{name}'
      rep.check('implemented', w, m is not None and not stub(m),
                f'{name} is ' + ('missing' if m is None else
                                 f'the stub of {k.name}, which returns None') +
                ', but is called in ' + ', '.join(
                    f'{q}:{c.lineno}' for n, q, c in sites if n == name))
      if m is None:
        continue
      for n, q, c in sites:
        if n == name:
          rep.check('arguments', f'{w} from {q}:{c.lineno}', fits(c, m),
                    f'{ast.unparse(c)[:80]} does not fit {name}('
                    f'{ast.unparse(m.args)})')


def calls(prog):
  """(method, function, call) of the calls of the arms on their estimator."""
  base = prog.cls('VarianceEstimatorArm')
  classes = [base] + sorted(prog.subclasses(base), key=lambda c: c.name)
  held = set()  # attributes that hold the estimator
  for cls in classes:
    for fn in cls.methods.values():
      for x in ast.walk(fn):
        if isinstance(x, ast.Assign) and isinstance(x.value, ast.Name) and \
            x.value.id in given(fn):
          held |= {y.attr for y in x.targets if isinstance(y, ast.Attribute)}
  for cls in classes:
    for name, fn in cls.methods.items():
      r = [x for x in fn.body if isinstance(x, ast.Return)]
      if name in cls.props and len(r) == 1 and isinstance(
          r[0].value, ast.Attribute) and r[0].value.attr in held:
        held.add(name)
  out = []
  for m in {c.module for c in classes}:
    for fn in [x for x in ast.walk(m.tree) if isinstance(x, ast.FunctionDef)]:
      names = given(fn)
      for _ in range(2):
        for x in ast.walk(fn):
          if isinstance(x, ast.Assign) and (
              isinstance(x.value, ast.Attribute) and x.value.attr in held or
              isinstance(x.value, ast.Name) and x.value.id in names):
            names |= {y.id for y in x.targets if isinstance(y, ast.Name)}
      for x in ast.walk(fn):
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute):
          o = x.func.value
          if isinstance(o, ast.Attribute) and o.attr in held or isinstance(
              o, ast.Name) and o.id in names:
            out.append((x.func.attr, f'{m.name}.{fn.name}', x))
  return out


def given(fn):
  """The parameters that are estimators."""
  a = fn.args
  return {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs
          if x.annotation is not None and 'NuisanceParameter' in ast.unparse(
              x.annotation)}


def stub(fn):
  """No more than a docstring, ..., pass or raise NotImplementedError."""
  for s in fn.body:
    if isinstance(s, ast.Pass) or isinstance(s, ast.Expr) and isinstance(
        s.value, ast.Constant):
      continue
    if isinstance(s, ast.Raise) and 'NotImplemented' in ast.unparse(s):
      continue
    return False
  return True


def fits(call, fn):
  if any(isinstance(a, ast.Starred) for a in call.args) or any(
      k.arg is None for k in call.keywords):
    return True
  a = fn.args
  pos = [x.arg for x in a.posonlyargs + a.args][1:]
  given = pos[:len(call.args)]
  if len(call.args) > len(pos) and a.vararg is None:
    return False
  names = [k.arg for k in call.keywords]
  if set(names) & set(given) or a.kwarg is None and set(names) - set(pos) - {
      x.arg for x in a.kwonlyargs}:
    return False
  need = pos[:len(pos) - len(a.defaults)] + [
      x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None]
  return set(need) <= set(given) | set(names)

"""Obligations, verdicts and the evidence of one check."""
import json
import os
import time

import terms as t
from program import AnalysisError

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Report:
  """Collects what a check had to show and what came of it."""

  def __init__(self, pid, tier):
    self.pid = pid
    self.tier = tier
    self.t0 = time.time()
    self.items = []  # (status, rule, where, detail)
    self.rules = {}
    self.functions = []
    self.assumptions = []
    self.known = {}

  def rule(self, key, text, least=1):
    """Declares a rule and the least number of instances it must have."""
    self.rules[key] = [text, least]

  def assume(self, text):
    if text not in self.assumptions:
      self.assumptions.append(text)

  def fn(self, *names):
    for n in names:
      if n not in self.functions:
        self.functions.append(n)

  def _add(self, status, rule, where, detail):
    assert rule in self.rules, rule
    self.items.append((status, rule, where, detail))

  def ok(self, rule, where, detail=''):
    self._add('ok', rule, where, detail)

  def bad(self, rule, where, detail):
    self._add('violated', rule, where, detail)

  def unsure(self, rule, where, detail):
    self._add('undecided', rule, where, detail)

  def hold(self, rule, where, cond, detail, pc=t.TRUE):
    """The boolean term cond holds under pc."""
    miss = t.And(pc, t.Not(cond))
    if miss is t.FALSE:
      self.ok(rule, where)
    elif miss.lost:
      self.unsure(rule, where, f'{detail}: not resolved: {show(miss)}')
    else:
      self.bad(rule, where, f'{detail}: fails when {show(miss)}')
    return miss is t.FALSE

  def equal(self, rule, where, got, want, detail, pc=t.TRUE):
    """The terms got and want are equal under pc."""
    d = differ(got, want, pc)
    if d is None:
      self.ok(rule, where)
      return True
    g, a, b = d
    msg = f'{detail}: is {show(a)}, should be {show(b)}'
    if g is not t.TRUE:
      msg += f', when {show(g)}'
    if a.lost or g.lost:
      self.unsure(rule, where, msg)
    else:
      self.bad(rule, where, msg)
    return False

  def depth(self, quick, thorough):
    return thorough if self.tier == 'thorough' else quick

  def check(self, rule, where, cond, detail):
    """A fact decided in the analysis itself."""
    if cond:
      self.ok(rule, where)
    else:
      self.bad(rule, where, detail)
    return bool(cond)

  # ------------------------------------------------------------------ finish

  def finish(self, seed=1, out=print):
    rc = 0
    viol = []
    for status, rule, where, detail in self.items:
      if status != 'violated':
        continue
      k = self.known.get((rule, where))
      if k is not None:
        out(f'KNOWN-FINDING: property={self.pid} {k}')
      else:
        viol.append((rule, where, detail))
    unsure = [x for x in self.items if x[0] == 'undecided']
    counts = {}
    for status, rule, _, _ in self.items:
      c = counts.setdefault(rule, {'instances': 0, 'ok': 0})
      c['instances'] += 1
      c['ok'] += status == 'ok'
    short = [(r, counts.get(r, {'instances': 0})['instances'], n)
             for r, (_, n) in self.rules.items()
             if counts.get(r, {'instances': 0})['instances'] < n]
    ev = os.path.join(VERIF, 'evidence')
    os.makedirs(os.path.join(ev, 'replay'), exist_ok=True)
    obligations = len(self.items)
    discharged = sum(x[0] == 'ok' for x in self.items)
    for r, (text, _) in self.rules.items():
      counts.setdefault(r, {'instances': 0, 'ok': 0})['rule'] = text
    data = {
        'property': self.pid,
        'tier': self.tier,
        'seed': seed,
        'level': 'other',
        'coverage': {
            'explanation':
                'Static analysis of the current source: the functions listed '
                'were evaluated on symbolic inputs over a term domain, and '
                'every obligation listed was decided on the resulting terms, '
                'heap states or effects.',
            'functions_analysed': self.functions,
            'rules': counts,
            'obligations': obligations,
            'discharged': discharged,
            'samples': [f'{r} @ {w}' for _, r, w, _ in self.items[:40]],
        },
        'assumptions': self.assumptions,
        'wall_s': round(time.time() - self.t0, 3),
        'violations': len(viol),
    }
    with open(os.path.join(ev, self.pid + '.json'), 'w') as f:
      json.dump(data, f, indent=1)
      f.write('\n')
    for r, c in counts.items():
      out(f'{self.pid} {r}: {c["ok"]}/{c["instances"]} ({self.rules[r][0]})')
    if viol:
      path = os.path.join(ev, 'replay', self.pid + '.txt')
      with open(path, 'w') as f:
        for rule, where, detail in viol:
          f.write(f'{self.pid} rule {rule}: {self.rules[rule][0]}\n'
                  f'  at {where}\n  {detail}\n')
      for rule, where, detail in viol:
        out(f'  {rule} at {where}: {detail[:600]}')
      out(f'VIOLATION property={self.pid} replay={path}')
      return 1
    for _, rule, where, detail in unsure:
      out(f'UNDECIDED {rule} at {where}: {detail[:600]}')
      rc = 2
    for r, n, least in short:
      out(f'UNDECIDED {r}: {n} instances, at least {least} expected')
      rc = 2
    return rc


def show(x, n=400):
  s = t.show(x)
  return s if len(s) <= n else s[:n] + '...'


def compare(a, b, pc=t.TRUE):
  """Yields (guard, x, y, equal) for the cases of a and b within pc."""

  def go(x, y, g, path, deep):
    if x is y:
      yield (g, x, y, True)
      return
    top = t._top([z for z in (x, y) if z.op == 'ite'])
    if top is not None:
      for v in (1, 0):
        g2 = t.And(g, t.atom(top) if v else t.Not(t.atom(top)))
        if g2 is not t.FALSE:
          yield from go(t._cof(x, top, v), t._cof(y, top, v), g2,
                        path + ((top, v),), deep)
      return
    if t.BOTTOM in (x, y):
      yield (g, x, y, False)
      return
    if same_leaf(x, y):
      yield (g, x, y, True)
      return
    x2, y2 = x, y
    for a, v in path:
      x2, y2 = t.assume(x2, a, v), t.assume(y2, a, v)
    x2, y2 = settle(x2, path), settle(y2, path)
    if x2 is not x or y2 is not y:
      yield from go(x2, y2, g, path, True)
      return
    yield (g, x, y, False)

  x, y = t.ITE(pc, a, t.BOTTOM), t.ITE(pc, b, t.BOTTOM)
  for c in go(x, y, t.TRUE, (), False):
    if not (c[1] is t.BOTTOM and c[2] is t.BOTTOM):
      yield c


def solved(p):
  """A number of rows or columns that p == 0 determines."""
  p = t.to_poly(p)
  for m, c in p.items():
    if len(m) == 1 and m[0][1] == 1 and abs(c) == 1 and m[0][0].op == 'app' and \
        m[0][0].args[0] in ('shape0', 'shape1', 'len'):
      z = m[0][0]
      r = t.from_poly({k: -d / c for k, d in p.items() if k != m})
      if not any(y is z for y in t.subterms(r)):
        return {z: r}
  return {}


def settle(x, path):
  """x, with the equalities and the extrema that the decided atoms settle."""
  m = {}
  for a, v in path:
    if v and a.op == 'eq0':
      m.update(solved(a.args[0]))
  if m and t.replace(x, m) is not x:
    return t.replace(x, m)
  m = {}
  for y in t.subterms(x):
    if y.op not in ('max2', 'min2'):
      continue
    keep = list(y.args[0])
    for u in y.args[0]:
      for v in y.args[0]:
        if u in keep and v in keep and u is not v:
          less = t.lt(u, v)
          for a, b in path:
            less = t._cof(less, a, b)
          if less is t.TRUE:
            keep.remove(u if y.op == 'max2' else v)
          elif less is t.FALSE:
            keep.remove(v if y.op == 'max2' else u)
    if len(keep) < len(y.args[0]):
      m[y] = t.extremum(y.op[:3], keep)
  return t.replace(x, m) if m else x


def differ(a, b, pc=t.TRUE):
  """None if a and b are equal under pc, else (guard, leaf of a, leaf of b)."""
  if a is b:
    return None
  for g, x, y, same in compare(a, b, pc):
    if not same:
      return g, x, y
  return None


def agree(a, b, pc=t.TRUE):
  """The condition, within pc, under which the terms a and b are equal."""
  if a is b:
    return pc
  return t.Or(*[g for g, x, y, same in compare(a, b, pc) if same])


def same_leaf(x, y):
  if x is y:
    return True
  if x.op in ('ite',) or t.is_bool(x) or t.is_bool(y):
    return False
  if arith(x) or arith(y):
    try:
      return t.rat_equal(x, y)
    except Exception:
      return False
  if x.op in ('seq', 'cat') and x.op == y.op and len(x.args) == len(y.args):
    if x.args[0] != y.args[0] or len(x.args[1]) != len(y.args[1]):
      return False
    return all(differ(p, q) is None for p, q in zip(x.args[1], y.args[1]))
  return False


def arith(x):
  return x.op in ('poly', 'num', 'sum', 'psum', 'pow')


def load_known(path=None):
  """(property, rule, where) -> text, for the findings that are not fixed."""
  path = path or os.path.join(VERIF, 'known-findings.txt')
  out = {}
  if os.path.exists(path):
    with open(path) as f:
      for line in f:
        line = line.strip()
        if not line.startswith('finding:'):
          continue
        head, _, text = line[len('finding:'):].partition('--')
        kv = dict(x.split('=', 1) for x in head.split())
        out[kv['property'], kv['rule'], kv['where']] = text.strip()
  return out

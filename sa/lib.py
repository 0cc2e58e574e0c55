"""Models of the library operations that the package uses.

Operations with several spellings (method or function, operator or call,
axis argument or transposition) get one term.
"""
import ast
import itertools
import re
from fractions import Fraction

from program import AnalysisError, ClassInfo
import terms as t
from terms import (T, mk, TRUE, FALSE, NONE, BOTTOM, ITE, And, Or, Not, num,
                   string, seq, tmp, restrict, ZERO, ONE)

HALF = num(Fraction(1, 2))
IGNORED = ('absl.logging.', 'logging.', 'warnings.')
ARRAY_TYS = ('arr', 'arr1', 'arr2')

# Methods of unknown objects that do not change them.
OBSERVERS = {
    'get_num_units', 'calculate_score', 'transform', 'has_enough_samples',
    'calculate_cs_width', 'predict', 'predict_proba', 'x_support', 'z_support',
    'support_size', '__len__', '__getitem__', 'get_params', '_phi',
    'get_response_parameters', '__str__', 'score', 'decision_function'
}
MUTATORS = {
    'fit', 'reset', 'update', 'append', 'set_params', 'partial_fit',
    'set_to_truth', '__setitem__'
}
RET = {
    'get_num_units': 'int', 'calculate_score': 'arr1', 'transform': 'arr2',
    'has_enough_samples': 'bool', 'calculate_cs_width': 'num',
    'predict': 'arr1', 'predict_proba': 'arr2', 'support_size': 'int',
    'z_support': ('list', 'arr1'), 'x_support': ('list', None),
    '__len__': 'int', '_phi': 'arr1'
}


def is_arr(v):
  return v.ty in ARRAY_TYS or v.op in ('hcat', 'draw') or (
      v.op in ('seq', 'map', 'cat') and v.args[0] == 'array') or (
          v.op == 'poly' and t.is_vector(v)) or (
              v.op == 'app' and v.args[0] in ARR_APPS)


ARR_APPS = {'full', 'T', 'eye', 'dot', 'delete', 'reshape', 'tile', 'flatten',
            'sorted', 'exp', 'clip', 'astype', 'linspace', 'where', 'inv'}


# the leading parameters of methods and constructors of other libraries
METHODS = {'fit': ('X', 'y'), 'predict': ('X',), 'predict_proba': ('X',),
           'sample_y': ('X', 'n_samples')}
CTORS = {'GaussianProcessRegressor': ('kernel',), 'AdaBoostClassifier': ('estimator',),
         'AdaBoostRegressor': ('estimator',)}


def by_position(names, pa, pk):
  """The arguments with the leading ones by position."""
  pa, pk = tuple(pa), dict(pk)
  while len(pa) < len(names) and names[len(pa)] in pk:
    pa += (pk.pop(names[len(pa)]),)
  return pa, pk


LOOPS = {f.name: f for f in ast.parse('''
def fill(d, pairs):
  for k, v in pairs:
    d[k] = v

def count(d, keys):
  for k in keys:
    d[k] += 1
''').body}


class Lib:

  def is_array(self, v):
    return is_arr(v) or self.one_dim(v)

  # --------------------------------------------------------------- conversions

  def pure(self, I, st, v):
    """A value without references to list objects."""
    return I.snap(st, v)

  def arr(self, I, st, v):
    """The array of a value."""
    v = I.snap(st, v)
    return self.arr_of(v)

  def arr_of(self, v):
    if v.op == 'ite':
      return ITE(t.atom(v.args[0]), self.arr_of(v.args[1]),
                 self.arr_of(v.args[2]))
    if v.op == 'seq':
      return seq('array', [self.arr_of(x) if x.op == 'seq' else x
                           for x in v.args[1]])
    if v.op in ('map', 'cat'):
      return t.masked(t.recat('array', v))
    return v

  def to_str(self, I, st, v):
    if v.op == 'str':
      return v
    if v.ty == 'str' or v.op == 'strcat':
      return v
    if v.op == 'num' and v.args[0].denominator == 1:
      return string(str(v.args[0]))
    if v.op == 'ite':
      return ITE(t.atom(v.args[0]), self.to_str(I, st, v.args[1]),
                 self.to_str(I, st, v.args[2]))
    return mk('app', 'str', (v,), (), ty='str')

  def fill(self, I, st, parts, args):
    """The strings with the arguments between them, None unless one for each gap."""
    if len(parts) != len(args) + 1 or any(
        c in p for p in parts for c in '{}%'):
      return None
    r = string(parts[0])
    for a, p in zip(args, parts[1:]):
      r = t.add(t.add(r, self.to_str(I, st, a)), string(p))
    return r

  def percent(self, I, st, s, v):
    """s % v, for %s and for %d of whole numbers, else None."""
    args = list(v.args[1]) if v.op == 'seq' and v.args[0] == 'tuple' else [v]
    parts = re.split(r'%[sd]', s)
    kinds = re.findall(r'%([sd])', s)
    if len(kinds) != len(args) or any(
        k == 'd' and not (a.op == 'num' and a.args[0].denominator == 1)
        for k, a in zip(kinds, args)):
      return None
    return self.fill(I, st, parts, args)

  def elementwise(self, f, x):
    """Applies a scalar function to a scalar or to every element of an array."""
    if x.op == 'ite' and not t.is_bool(x):
      return ITE(t.atom(x.args[0]), self.elementwise(f, x.args[1]),
                 self.elementwise(f, x.args[2]))
    if x.op == 'seq':
      return seq('array', [self.elementwise(f, y) for y in x.args[1]])
    if x.op == 'map':
      k = tmp()
      return t.mkmap('array', x.args[1], t.inst(x, k, 2),
                     self.elementwise(f, t.inst(x, k, 3)), k)
    if x.op == 'cat':
      return t.cat('array', [self.elementwise(f, y) for y in x.args[1]])
    if x.op == 'hcat':
      return self.hcat([self.elementwise(f, y) for y in x.args[0]])
    return f(x)

  def ew(self, name, x, ty=None):
    return self.elementwise(
        lambda y: t.app(name, y, ty=(y.ty if y.ty in ARRAY_TYS else
                                     ('num' if t.is_scalar(y) else ty))), x)

  def invert(self, v):
    if t.is_bool(v) or not is_arr(v) and v.op not in ('idx', 'app', 'veq', 'sym',
                                                      'vnot', 'vlt'):
      return t.app('invert', v) if v.op == 'num' else Not(t.truth(v))
    return t.bmap(v, Not)

  def logical(self, which, a, b):
    if not t.is_bool(a) and not t.is_bool(b) and 'ite' in (a.op, b.op):
      return t.lift(lambda x, y: self.logical(which, x, y))(a, b)
    f = And if which == 'and' else Or
    if t.is_bool(a) and t.is_bool(b):
      return f(a, b)
    r = t._arith2(a, b, lambda x, y: self.logical(which, x, y))
    if r is not None:
      return r
    if t.is_scalar(a) and t.is_scalar(b):
      return f(t.truth(a), t.truth(b))
    if a.op in ('true', 'false') or b.op in ('true', 'false'):
      return f(t.truth(a), t.truth(b))
    return mk('v' + which, *sorted((a, b), key=lambda x: x.id))

  def mod(self, a, b):
    r = t._arith2(a, b, self.mod)
    if r is not None:
      return r
    if a.op == 'num' and b.op == 'num' and b.args[0] != 0:
      return num(a.args[0] % b.args[0])
    return t.app('mod', a, b, ty='num' if t.is_scalar(a) else None)

  def floordiv(self, a, b):
    r = t._arith2(a, b, self.floordiv)
    if r is not None:
      return r
    if a.op == 'num' and b.op == 'num' and b.args[0] != 0:
      return num(a.args[0] // b.args[0])
    return t.app('floor', t.div(a, b), ty='num' if t.is_scalar(a) else None)

  def dot(self, a, b):
    """Matrix product, linear in both arguments."""

    @t.lift
    def go(x, y):
      if x is BOTTOM or y is BOTTOM:
        return BOTTOM
      if t.is_scalar(x) or t.is_scalar(y):
        return t.mul(x, y)
      if any(t.is_full(z) and z.args[1][1] is ZERO for z in (x, y)):
        return ZERO
      r = ZERO
      for cx, mx in self.lin(x):
        for cy, my in self.lin(y):
          v = ONE  # factors of the columns
          if my.op == 'app' and my.args[0] == 'diag' and len(
              my.args[1]) == 1 and not my.args[2] and my.args[1][0].ty == 'arr1':
            r = t.add(r, t.mul(t.mul(cx, cy), t.mul(mx, my.args[1][0])))
            continue
          if my.op == 'poly' and len(my.args[0]) == 1:
            (m, _), = my.args[0]
            vs = [z for z in m if z[0].ty == 'arr1']
            ms = [z for z in m if z[0].ty == 'arr2']
            if len(ms) == 1 and ms[0][1] == 1 and len(vs) + 1 == len(m):
              v = t.from_poly({tuple(vs): Fraction(1)})
              my = ms[0][0]
          d = mk('app', 'dot', (mx, my), (),
                 ty=DOT_TY.get((mx.ty, my.ty)))
          r = t.add(r, t.mul(t.mul(cx, cy), t.mul(v, d)))
      return r

    return go(a, b)

  def lin(self, x):
    """x as a list of (scalar coefficient, array)."""
    if x.op != 'poly':
      return [(ONE, x)]
    out = []
    for m, c in x.args[0]:
      sc = [(a, e) for a, e in m if t.is_scalar(a)]
      ve = [(a, e) for a, e in m if not t.is_scalar(a)]
      if not ve:
        return [(ONE, x)]
      out.append((t.from_poly({tuple(sc): c}),
                  t.from_poly({tuple(ve): Fraction(1)})))
    return out

  def transpose(self, x):

    @t.lift
    def go(x):
      if x.op == 'app' and x.args[0] == 'T':
        return x.args[1][0]
      if x.op == 'hcat':
        return mk('app', 'T', (x,), (), ty='arr2')
      if t.is_full(x) and x.args[1][0].op == 'seq':
        n = x.args[1][0]
        return self.full(t.seq(n.args[0], list(n.args[1])[::-1]), x.args[1][1])
      if x.op == 'seq' and x.args[1]:
        return self.hcat(list(x.args[1]))
      if x.op == 'map':
        return mk('app', 'column_stack', (x,), (), ty='arr2')
      if x.ty == 'arr1':
        return x
      r = ZERO
      ls = self.lin(x)
      if len(ls) == 1 and ls[0][0] is ONE:
        return mk('app', 'T', (x,), (), ty=x.ty)
      for c, m in ls:
        r = t.add(r, t.mul(c, mk('app', 'T', (m,), (), ty=m.ty)))
      return r

    return go(x)

  def hcat(self, blocks):
    """Columns or blocks of columns side by side."""
    out = []
    for b in blocks:
      if b.op == 'ite':
        a = b.args[0]
        return ITE(t.atom(a), self.hcat([t.cofactor(x, a, 1) for x in blocks]),
                   self.hcat([t.cofactor(x, a, 0) for x in blocks]))
    for b in blocks:
      if b is BOTTOM:
        return BOTTOM
      if b.op == 'hcat':
        out += list(b.args[0])
      elif b.op == 'app' and b.args[0] == 'T' and b.args[1][0].op == 'hcat':
        out.append(b)
      elif t.is_full(b):  # the other columns are numbers
        n = b.args[1][0]
        if n.op == 'seq' and len(n.args[1]) == 2 and n.args[1][1] is ONE:
          out.append(mk('app', 'full', (n.args[1][0],) + b.args[1][1:], (),
                        ty='arr1'))
        else:
          out.append(mk('app', 'full', b.args[1], (), ty=b.ty))
      else:
        out.append(b)
    if len(out) == 1 and out[0].ty == 'arr2':
      return out[0]
    return mk('hcat', tuple(out), ty='arr2')

  def column_stack(self, x):

    @t.lift
    def go(x):
      if x.op == 'seq':
        return self.hcat(list(x.args[1]))
      return mk('app', 'column_stack', (t.recat('list', x),), (), ty='arr2')

    return go(x)

  def flatten(self, x, order=None):
    if x.ty == 'arr1':
      return x
    if order is not None and order.args[0] != 'C':
      if order.args[0] == 'F':
        return self.flatten(self.transpose(x))
      return t.app('flatten', x, order, ty='arr1')
    if x.op == 'app' and x.args[0] == 'flatten':
      return x
    hs = {y for y in ([x] if x.op == 'hcat' else t.to_poly(x)
                      and [a for m in t.to_poly(x) for a, _ in m])
          if not t.is_scalar(y)}
    if hs and all(h.op == 'hcat' and len(h.args[0]) == 1 and
                  h.args[0][0].ty == 'arr1' for h in hs):
      return t.replace(x, {h: h.args[0][0] for h in hs})
    return t.app('flatten', x, ty='arr1')

  def shape(self, x):
    if x.op == 'ite':
      return ITE(t.atom(x.args[0]), self.shape(x.args[1]), self.shape(x.args[2]))
    if x.ty == 'arr1':
      return seq('tuple', [t.length(x)])
    if x.ty == 'arr2':
      return seq('tuple', [self.rows(x), self.cols(x)])
    return mk('app', 'shape', (x,), ())

  def rows(self, x):
    if x.op == 'hcat':
      return t.length(x.args[0][0])
    return t.length(x)

  def cols(self, x):
    if x.op == 'hcat':
      r = ZERO
      for b in x.args[0]:
        r = t.add(r, self.cols(b) if b.ty == 'arr2' else ONE)
      return r
    if x.op == 'app' and x.args[0] == 'T':
      return t.length(x.args[1][0])
    if x.op == 'cat':
      return self.cols(x.args[1][0])
    if t.is_full(x) and x.args[1][0].op == 'seq' and len(x.args[1][0].args[1]) == 2:
      return x.args[1][0].args[1][1]
    if x.op == 'idx' and x.args[0].ty == 'arr2' and not (
        x.args[1].op == 'seq' and x.args[1].args[0] == 'tuple'):
      return self.cols(x.args[0])
    if x.op == 'poly':
      ks = {self.cols(a) for m, _ in x.args[0] for a, _ in m if a.op == 'hcat'}
      if len(ks) == 1 and all(
          t.is_scalar(a) or a.op == 'hcat' for m, _ in x.args[0] for a, _ in m):
        return ks.pop()
    return t.app('shape1', x, ty='int')

  def ndim(self, x):
    if x.op == 'ite':
      return ITE(t.atom(x.args[0]), self.ndim(x.args[1]), self.ndim(x.args[2]))
    if x.op == 'cat' and x.args[1][0].op != 'seq':
      return self.ndim(x.args[1][0])
    if x.ty == 'arr1':
      return ONE
    if x.ty == 'arr2':
      return num(2)
    if x.op == 'num' or x.ty in ('int', 'num', 'float', 'bool'):
      return ZERO
    if x.op == 'seq' and x.args[1] and x.args[1][0].op == 'num':
      return ONE
    if x.op == 'poly':
      ds = [self.ndim(a) for m, _ in x.args[0] for a, _ in m]
      if ds and all(d.op == 'num' for d in ds):
        return max(ds, key=lambda d: d.args[0])
    return t.app('ndim', x, ty='int')

  # ---------------------------------------------------------- generic sequences

  def nge(self, c):
    """(n, guard(k), element(k)) of a sequence, as functions of a position."""
    if c.op == 'map':
      return c.args[1], (lambda k: t.inst(c, k, 2)), (lambda k: t.inst(c, k, 3))
    return t.length(c), (lambda k: TRUE), (lambda k: t.idx(c, k))

  def zip_(self, cs, strict=False):
    for c in cs:
      if c.op == 'ite':
        a = c.args[0]
        return ITE(t.atom(a), self.zip_([t.cofactor(x, a, 1) for x in cs]),
                   self.zip_([t.cofactor(x, a, 0) for x in cs]))
    if all(c.op == 'seq' for c in cs):
      return seq('list', [seq('tuple', x) for x in zip(*[c.args[1] for c in cs])])
    if any(c.op == 'cat' for c in cs):
      # split every sequence at the explicit parts
      heads = []
      for c in cs:
        if c.op == 'seq' and c.args[1]:
          heads.append((c.args[1][0], seq(c.args[0], c.args[1][1:])))
        elif c.op == 'cat' and c.args[1][0].op == 'seq':
          p = c.args[1][0]
          heads.append((p.args[1][0],
                        t.cat(c.args[0], [seq(p.args[0], p.args[1][1:])] +
                              list(c.args[1][1:]))))
      if len(heads) == len(cs):
        return t.cat('list', [seq('list', [seq('tuple', [h for h, _ in heads])]),
                              self.zip_([r for _, r in heads])])
      if all(c.op == 'cat' for c in cs):
        ns = {t.length(c.args[1][0]) for c in cs}
        if len(ns) == 1:
          return t.cat('list', [
              self.zip_([c.args[1][0] for c in cs]),
              self.zip_([t.cat(c.args[0], list(c.args[1][1:])) for c in cs])])
    k = tmp(ty='int')
    parts = [self.nge(c) for c in cs]
    gs = [p[1](k) for p in parts]
    if all(g is gs[0] for g in gs):
      ns = []
      for p in parts:
        if p[0] not in ns:
          ns.append(p[0])
      if gs[0] is TRUE or len(ns) == 1:
        n = ns[0] if len(ns) == 1 else t.extremum('min', ns)
        return t.mkmap('list', n, gs[0],
                       seq('tuple', [p[2](k) for p in parts]), k)
    # filtered differently: positions in the filtered sequences
    n = t.extremum('min', [t.length(c) for c in cs])
    return t.mkmap('list', n, TRUE,
                   seq('tuple', [mk('idx', c, k, ty=t.elem_type(c)) for c in cs]),
                   k)

  def enumerate_(self, c, start):
    if c.op == 'ite':
      return ITE(t.atom(c.args[0]), self.enumerate_(c.args[1], start),
                 self.enumerate_(c.args[2], start))
    if c.op == 'seq':
      return seq('list', [seq('tuple', [t.add(num(i), start), x])
                          for i, x in enumerate(c.args[1])])
    if c.op == 'cat':
      r, off = [], start
      for p in c.args[1]:
        r.append(self.enumerate_(p, off))
        off = t.add(off, t.length(p))
      return t.cat('list', r)
    k = tmp(ty='int')
    n, g, e = self.nge(c)
    if g(k) is TRUE:
      return t.mkmap('list', n, TRUE, seq('tuple', [t.add(k, start), e(k)]), k)
    n = t.length(c)
    return t.mkmap('list', n, TRUE,
                   seq('tuple', [t.add(k, start), mk('idx', c, k)]), k)

  def range_(self, a, b, s=ONE):
    if all(x.op == 'num' for x in (a, b, s)):
      return seq('list', [num(i) for i in range(*[int(x.args[0])
                                                  for x in (a, b, s)])])
    k = tmp(ty='int')
    if s is ONE:
      return t.mkmap('list', t.sub(b, a), TRUE, t.add(a, k), k)
    if s.op == 'num' and s.args[0] == -1:
      return t.mkmap('list', t.sub(a, b), TRUE, t.sub(a, k), k)
    return mk('app', 'range', (a, b, s), ())

  def quantify(self, which, c, truth=t.truth):
    """any/all over a sequence."""
    if c.op == 'ite' and not t.is_bool(c):
      return ITE(t.atom(c.args[0]), self.quantify(which, c.args[1], truth),
                 self.quantify(which, c.args[2], truth))
    f = Or if which == 'any' else And
    if c.op == 'seq':
      return f(*[truth(x) for x in c.args[1]])
    if c.op == 'cat':
      return f(*[self.quantify(which, p, truth) for p in c.args[1]])
    if t.is_bool(c):
      return c
    k = tmp(ty='int')
    if c.op == 'map':
      g, b = t.inst(c, k, 2), t.truth(t.inst(c, k, 3))
      if which == 'any':
        return t.mkany(c.args[1], And(g, b), k)
      return t.mkall(c.args[1], Or(Not(g), b), k)
    if t.is_full(c):
      return t.truth(c.args[1][1])
    if c.op == 'vnot':
      return Not(self.quantify('all' if which == 'any' else 'any', c.args[0]))
    if c.op == ('vor' if which == 'any' else 'vand'):
      return f(*[self.quantify(which, x) for x in c.args])
    if c.op in ('veq', 'vlt'):
      g = t.mask_at(c, k)
      n = t.vlen(c)
      if g is not None and all(t.is_scalar(x) or t.LENGTH.get(x) is n or
                               x.ty == 'arr1' for x in c.args):
        return (t.mkany if which == 'any' else t.mkall)(n, g, k)
    if which == 'any':
      return t.batom('anyof', c)
    return Not(t.batom('anyof', t.bmap(c, Not)))

  # --------------------------------------------------------------------- stores

  def seq_store(self, c, i, v):
    return t.setitem(c, i, v)

  def array_store(self, I, st, o, i, v):
    v = self.arr(I, st, v)
    if o.op == 'ite':
      c, x, y = o.args
      return ITE(t.atom(c), self.array_store(I, st, x, i, v),
                 self.array_store(I, st, y, i, v))
    if t.is_scalar(v) and self.one_dim(o):
      r = self.bounded(i, v, o)
      if r is not None:
        return r
    if i.op == 'slice' and i is t.FULL and t.is_scalar(v):
      if o.op == 'app' and o.args[0] in ('full', 'empty'):
        return self.full(o.args[1][0], v)
      return mk('app', 'setitem', (o, i, v), (), ty=o.ty)
    if o.op == 'seq' or o.op == 'map' or o.op == 'cat':
      return self.seq_store(o, i, v)
    if i.op == 'seq' and len(i.args[1]) == 2 and i.args[1][0] is t.FULL:
      r = self.set_column(o, i.args[1][1], v)
      if r is not None:
        return r
      if v.op == 'ite' and o.op == 'hcat':
        c, x, y = v.args
        return ITE(t.atom(c), self.array_store(I, st, o, i, x),
                   self.array_store(I, st, o, i, y))
    return mk('app', 'setitem', (o, I.snap(st, i), v), (), ty=o.ty)

  def bounded(self, c, a, b):
    """where(c, a, b) if it is the smaller or the larger of a and b."""
    if c is TRUE or c is FALSE:
      return None
    if c is t.lt(b, a) or c is t.le(b, a):
      return self.pairwise('maximum', b, a)
    if c is t.lt(a, b) or c is t.le(a, b):
      return self.pairwise('minimum', b, a)
    return None

  def one_dim(self, v):
    if v.op == 'app' and v.args[0] in ('clip', 'abs', 'exp', 'log', 'sqrt'):
      return self.one_dim(v.args[1][0])
    if v.op == 'app' and v.args[0] in ('maximum', 'minimum'):
      return any(self.one_dim(x) for x in v.args[1]) and all(
          t.is_scalar(x) or self.one_dim(x) for x in v.args[1])
    if v.op == 'idx' and v.args[1].op == 'seq' and len(v.args[1].args[1]) == 2:
      i, j = v.args[1].args[1]
      return i is t.FULL and j.op == 'num' or j is t.FULL and i.op == 'num'
    return t.type_of(v) == 'arr1' or v.op in ('map', 'seq')

  def set_column(self, o, j, v):
    """o[:, j] = v for an array of a known number of columns."""
    if j.op != 'num':
      return None
    col = o.args[0] if o.op == 'hcat' else ()
    if not (t.is_scalar(v) or self.one_dim(v) or v in col or v.op == 'poly' and
            all(t.is_scalar(a) or self.one_dim(a) or a in col
                for m, _ in v.args[0] for a, _ in m)):
      return None
    n = None
    if o.op == 'app' and o.args[0] in ('full', 'empty'):
      sh = o.args[1][0]
      if sh.op != 'seq' or len(sh.args[1]) != 2 or sh.args[1][1].op != 'num' or \
          sh.args[1][1].args[0] > 16:
        return None
      n = sh.args[1][0]
      col = mk('app', o.args[0], (n,) + o.args[1][1:], (), ty='arr1')
      cols = [col] * int(sh.args[1][1].args[0])
    elif o.op == 'hcat' and not any(t.wide(b) for b in o.args[0]):
      cols = list(o.args[0])
      n = t.vlen(cols[0])
    else:
      return None
    j = int(j.args[0])
    if not -len(cols) <= j < len(cols):
      return None
    cols[j] = self.full(n, v) if t.is_scalar(v) else v
    return mk('hcat', tuple(cols), ty='arr2')

  def full(self, shape, v, dtype=None):
    ty = None
    if shape.op == 'seq' and shape.args[0] == 'tuple':
      if len(shape.args[1]) == 1:
        shape, ty = shape.args[1][0], 'arr1'
      elif len(shape.args[1]) == 2:
        ty = 'arr2'
    elif t.is_scalar(shape) or shape.op != 'seq':
      ty = 'arr1'
    kw = (('dtype', dtype),) if dtype is not None else ()
    return mk('app', 'full', (shape, v), kw, ty=ty)

  def delitem(self, I, st, v, i):
    k = I.kind(st, v)
    if k == 'list':
      c = I.getc(st, v, 'content')
      if c.op == 'seq' and i.op == 'num':
        x = list(c.args[1])
        del x[int(i.args[0])]
        I.setc(st, v, 'content', seq('list', x))
      elif i.op == 'slice' and i.args[2] in (NONE, t.ONE):
        I.setc(st, v, 'content', self.without(c, i))
      else:
        I.setc(st, v, 'content', mk('app', 'delitem', (c, i), ()))
      I.event(st, 'write', obj=v)
    elif k == 'dict':
      self._dict_del(I, st, v, i)
    else:
      # the variable or attribute that holds it gets a new value
      I.event(st, 'arrayset', obj=v, key=i, value=NONE)
      return self.without(v, i) if i.op == 'slice' and i.args[2] in (
          NONE, t.ONE) else mk('app', 'delitem', (v, i), ())

  def without(self, c, i):
    """A sequence without the items of a slice."""
    lo, hi, _ = i.args
    if lo in (NONE, t.ZERO) and hi.op == 'num' and hi.args[0] >= 0 or hi.op == 'sym':
      return t.idx(c, t.mkslice(hi, NONE, NONE))
    if hi is NONE:
      return t.idx(c, t.mkslice(NONE, lo, NONE))
    return mk('app', 'delitem', (c, i), ())

  def default_family(self, I, st, d, factory):
    """Values of a defaultdict whose default is a new container."""
    s2 = st.copy()
    v = I.call(s2, factory, [], {})
    o = I.obj(s2, v) if v.op == 'ref' and v.args[0] not in st.heap else None
    if o is None or o.kind not in ('dict', 'list', 'set') or 'dflt' in o.comps:
      return
    f = I.alloc(st, o.kind, o.info)
    st.heap[f.args[0]].fam = True
    st.heap[f.args[0]].comps = {n: mk('famconst', x) for n, x in o.comps.items()}
    I.setc(st, d, 'fam', mk('famref', f.args[0]))
    I.setc(st, d, 'dflt', f)

  def _dict_del(self, I, st, d, key):
    keys = I.getc(st, d, 'keys')
    k = tmp()
    if keys.op == 'seq':
      r = seq('list', [])
      for x in keys.args[1]:
        e = t.eq(x, key)
        r = ITE(e, r, t.cat('list', [r, seq('list', [x])]))
    else:
      n, g, e = self.nge(keys)
      r = t.mkmap('list', n, And(g(k), Not(t.eq(e(k), key))), e(k), k)
    I.setc(st, d, 'keys', r)

  def run_loop(self, I, st, d, o, name):
    """Runs one of the loops above."""
    f = I.mkfunc(next(iter(I.prog.modules.values())), LOOPS[name], None, None)
    seen = set(I.analysed)
    I.call(st, f, [d, o], {})
    I.analysed.intersection_update(seen)

  def dict_update(self, I, st, d, o):
    if I.kind(st, o) == 'dict':
      keys = I.getc(st, o, 'keys')
      fam = I.getc(st, o, 'fam')
      if keys.op == 'seq':
        for k in keys.args[1]:
          I.dict_set(st, d, k, t.select(fam, k))
        return
      mine = I.getc(st, d, 'keys')
      if mine.op == 'seq' and not mine.args[1]:
        I.setc(st, d, 'keys', keys)
        I.setc(st, d, 'fam', fam)
        return
    else:
      c = I.content(st, o)
      if c.op in ('seq', 'map', 'cat', 'ite'):
        self.run_loop(I, st, d, o, 'fill')
        return
    if isinstance(o, T) and o.op in ('sym', 'app') and I.kind(st, o) is None:
      I.setc(st, d, 'keys', t.cat('list', [I.getc(st, d, 'keys'),
                                           mk('app', 'keys', (o,), ())]))
      k = tmp('a')
      I.setc(st, d, 'fam', t.famall(I.getc(st, d, 'fam'),
                                    mk('app', 'keys', (o,), ()), t.idx(o, k), k))
      return
    I.setc(st, d, 'fam', t.lost('dict update'))

  # ----------------------------------------------------------------------- sets

  def setop(self, I, st, op, a, b):
    ca, cb = I.content(st, a), I.content(st, b)
    n = type(op).__name__
    return I.alloc(st, 'set', content=self._setop(n, ca, cb))

  def _setop(self, n, ca, cb):
    if n in ('BitOr', 'union'):
      return t.cat('list', [ca, cb])
    k = tmp()
    m, g, e = self.nge(ca)
    c = t.member(e(k), cb)
    if n in ('Sub', 'difference'):
      c = Not(c)
    elif n not in ('BitAnd', 'intersection'):
      return t.lost('set operation ' + n)
    if ca.op == 'seq':
      r = seq('list', [])
      for x in ca.args[1]:
        y = t.member(x, cb)
        y = Not(y) if n in ('Sub', 'difference') else y
        r = ITE(y, t.cat('list', [r, seq('list', [x])]), r)
      return r
    return t.mkmap('list', m, And(g(k), c), e(k), k)

  def subset(self, ca, cb):
    if ca.op == 'seq':
      return And(*[t.member(x, cb) for x in ca.args[1]])
    if ca.op == 'ite':
      return ITE(t.atom(ca.args[0]), self.subset(ca.args[1], cb),
                 self.subset(ca.args[2], cb))
    if ca.op == 'cat':
      return And(*[self.subset(p, cb) for p in ca.args[1]])
    k = tmp()
    n, g, e = self.nge(ca)
    return t.mkall(n, Or(Not(g(k)), t.member(e(k), cb)), k)

  def setcmp(self, I, st, op, a, b):
    ca, cb = I.content(st, a), I.content(st, b)
    n = type(op).__name__
    if n == 'LtE':
      return self.subset(ca, cb)
    if n == 'GtE':
      return self.subset(cb, ca)
    if n == 'Eq':
      return And(self.subset(ca, cb), self.subset(cb, ca))
    if n == 'NotEq':
      return Not(And(self.subset(ca, cb), self.subset(cb, ca)))
    if n == 'Lt':
      return And(self.subset(ca, cb), Not(self.subset(cb, ca)))
    return And(self.subset(cb, ca), Not(self.subset(ca, cb)))

  # ----------------------------------------------------------------- attributes

  def attribute(self, I, st, v, name):
    if v is BOTTOM:
      return BOTTOM
    if v.op == 'lost':
      return t.lost(f'attribute of {v.args[0]}')
    if v.op == 'ref' or v.op == 'fref':
      return mk('xmeth', v, name)
    if v.op == 'snap':
      d = dict(v.args[1])
      if name in d:
        return d[name]
    if name == 'shape':
      return self.shape(self.arr_of(v))
    if name == 'T':
      return self.transpose(self.arr_of(v))
    if name == 'ndim':
      return self.ndim(v)
    if name == 'size':
      return t.length(v) if v.ty == 'arr1' else t.app('size', v, ty='int')
    if name == 'dtype':
      return t.app('dtype', v)
    if name == '__name__':
      return t.app('__name__', v, ty='str')
    if name.endswith('_') and not name.startswith('__'):
      return mk('app', 'get:' + name, (v, t.select(I.ost(st), v)), ())
    if name in ('tau', 'beta', 'gamma', 'n_units', 'n_features', 'cov', 'exp',
                'rsp', 'cost', 'ci', 'var_est', 'ate'):
      return mk('app', 'get:' + name, (v, t.select(I.ost(st), v)), ())
    return mk('xmeth', v, name)

  # -------------------------------------------------------------------- methods

  def method(self, I, st, recv, name, args, kw):
    if recv.op == 'ite':
      return I.split(st, recv, lambda s, r: self.method(s and I, s, r, name, args,
                                                        kw))
    if name == '__contains__' and len(args) == 1:
      return I.contains(st, recv, args[0])
    if name == '__len__' and not args:
      return self.b_len(I, st, [recv], {})
    k = I.kind(st, recv)
    if name == '__getitem__' and len(args) == 1 and k != 'inst':
      return I.getitem(st, recv, args[0])
    if k == 'list':
      return self.list_method(I, st, recv, name, args, kw)
    if k == 'dict':
      return self.dict_method(I, st, recv, name, args, kw)
    if k == 'set':
      return self.set_method(I, st, recv, name, args, kw)
    if k == 'ext':
      return self.ext_method(I, st, recv, name, args, kw)
    if k == 'inst':
      return t.lost(f'method {name}')
    if isinstance(recv.ty, tuple) and recv.ty[0] == 'cls':
      return self.abstract_method(I, st, recv, name, args, kw)
    if recv.op in ('str', 'strcat') or recv.ty == 'str':
      if name == 'join':
        c = I.snap(st, args[0])
        if c.op == 'seq':
          r = string('')
          for i, x in enumerate(c.args[1]):
            r = t.add(r, x) if i == 0 else t.add(t.add(r, recv), x)
          return r
      if name == 'format' and recv.op == 'str' and not kw:
        r = self.fill(I, st, recv.args[0].split('{}'), args)
        if r is not None:
          return r
      return mk('app', 'str.' + name,
                (recv,) + tuple(I.snap(st, a) for a in args), (), ty='str')
    r = self.array_method(I, st, recv, name, args, kw)
    if r is not None:
      return r
    return self.abstract_method(I, st, recv, name, args, kw)

  def list_method(self, I, st, r, name, args, kw):
    c = I.getc(st, r, 'content')
    put = lambda v: I.setc(st, r, 'content', v)
    if name == 'append':
      I.event(st, 'append', obj=r, value=args[0])
      put(t.cat('list', [c, seq('list', [args[0]])]))
      return NONE
    if name in ('extend', '__iadd__'):
      put(t.cat('list', [c, t.recat('list', I.content(st, args[0]))]))
      return NONE
    if name == 'copy':
      return I.alloc(st, 'list', content=c)
    if name == 'clear':
      put(seq('list', []))
      return NONE
    if name == 'insert':
      if args[0] is ZERO:
        put(t.cat('list', [seq('list', [args[1]]), c]))
      elif c.op == 'seq' and args[0].op == 'num':
        x = list(c.args[1])
        x.insert(int(args[0].args[0]), args[1])
        put(seq('list', x))
      else:
        put(t.app('insert', c, *args))
      return NONE
    if name == 'pop':
      i = args[0] if args else num(-1)
      v = t.idx(c, i)
      if c.op == 'seq' and i.op == 'num':
        x = list(c.args[1])
        if -len(x) <= int(i.args[0]) < len(x):
          del x[int(i.args[0])]
        put(seq('list', x))
      elif c.op == 'cat' and i is num(-1) and c.args[1][-1].op == 'seq':
        put(t.cat('list', list(c.args[1][:-1]) +
                  [seq('list', c.args[1][-1].args[1][:-1])]))
      else:
        # the sequence without one position
        k = tmp('k', ty='int')
        if c.op in ('sym', 'map', 'app', 'idx') and not (c.op == 'map' and
                                                         c.args[2] is not TRUE):
          n, g, e = self.nge(c)
          j = i if not (i.op == 'num' and i.args[0] < 0) else t.add(n, i)
          put(t.mkmap('list', n, Not(t.eq(k, j)), e(k), k))
        else:
          put(t.app('pop', c, i))
      I.event(st, 'pop', obj=r)
      return v
    if name == 'remove':
      k = tmp('k', ty='int')
      n, g, e = self.nge(c)
      if c.op == 'seq':
        out = seq('list', [])
        for x in c.args[1]:
          out = ITE(t.eq(x, args[0]), out, t.cat('list', [out, seq('list', [x])]))
        put(out)
      else:
        I.note('list.remove removes the only equal element')
        put(t.mkmap('list', n, And(g(k), Not(t.eq(e(k), args[0]))), e(k), k))
      return NONE
    if name == 'sort':
      put(t.app('sorted', t.recat('list', c), **{
          a: I.snap(st, v) for a, v in kw.items()}))
      return NONE
    if name == 'reverse':
      put(t.app('reversed', c))
      return NONE
    if name == 'index':
      return t.app('index', c, I.snap(st, args[0]), ty='int')
    if name == 'count':
      k = tmp('k', ty='int')
      n, g, e = self.nge(c)
      return t.mksum(n, ITE(And(g(k), t.eq(e(k), args[0])), ONE, ZERO), k)
    if name in ('__len__',):
      return t.length(c)
    if name == '__getitem__':
      return I.getitem(st, r, args[0])
    return t.lost('list.' + name)

  def dict_values(self, I, st, r):
    keys = I.getc(st, r, 'keys')
    fam = I.getc(st, r, 'fam')
    return self.map_seq(keys, lambda k: I.present(t.select(fam, k)))

  def map_seq(self, c, f):
    if c.op == 'ite':
      return ITE(t.atom(c.args[0]), self.map_seq(c.args[1], f),
                 self.map_seq(c.args[2], f))
    if c.op == 'seq':
      return seq('list', [f(x) for x in c.args[1]])
    if c.op == 'cat':
      return t.cat('list', [self.map_seq(p, f) for p in c.args[1]])
    k = tmp('k', ty='int')
    n, g, e = self.nge(c)
    return t.mkmap('list', n, g(k), f(e(k)), k)

  def dict_method(self, I, st, r, name, args, kw):
    keys = I.getc(st, r, 'keys')
    fam = I.getc(st, r, 'fam')
    if name == 'keys':
      return keys
    if name == 'values':
      return self.dict_values(I, st, r)
    if name == 'items':
      return self.map_seq(
          keys, lambda k: seq('tuple', [k, I.present(t.select(fam, k))]))
    if name == 'get':
      m = t.member(args[0], keys)
      d = args[1] if len(args) > 1 else NONE
      v = I.present(t.select(fam, args[0]))
      return ITE(m, v, d)
    if name == 'setdefault':
      m = t.member(args[0], keys)

      def put(s):
        I.dict_set(s, r, args[0], args[1] if len(args) > 1 else NONE)
        return args[1] if len(args) > 1 else NONE

      return I.fork(st, m, lambda s: I.present(t.select(fam, args[0])), put)
    if name == 'update':
      if args:
        self.dict_update(I, st, r, args[0])
      for k, v in kw.items():
        I.dict_set(st, r, string(k), v)
      return NONE
    if name == 'pop':
      v = I.present(t.select(fam, args[0]))
      if len(args) > 1:
        v = ITE(t.member(args[0], keys), v, args[1])
      self._dict_del(I, st, r, args[0])
      return v
    if name == 'copy':
      o = I.obj(st, r)
      return I.alloc(st, 'dict', o.info, keys=keys, fam=fam)
    if name == 'clear':
      I.setc(st, r, 'keys', seq('list', []))
      return NONE
    if name == '__len__':
      return t.length(keys)
    return t.lost('dict.' + name)

  def set_method(self, I, st, r, name, args, kw):
    c = I.getc(st, r, 'content')
    if name == 'add':
      m = t.member(args[0], c)
      I.setc(st, r, 'content',
             ITE(m, c, t.cat('list', [c, seq('list', [args[0]])])))
      return NONE
    if name == 'update':
      I.setc(st, r, 'content',
             t.dedup(t.cat('list', [c, I.content(st, args[0])])))
      return NONE
    if name in ('discard', 'remove'):
      I.setc(st, r, 'content', self._setop('Sub', c, seq('list', [args[0]])))
      return NONE
    if name == 'issubset':
      return self.subset(c, self.keys_of(I, st, args[0]))
    if name == 'issuperset':
      return self.subset(self.keys_of(I, st, args[0]), c)
    if name in ('union', 'difference', 'intersection'):
      return I.alloc(st, 'set', content=self._setop(
          name, c, self.keys_of(I, st, args[0])))
    if name == 'copy':
      return I.alloc(st, 'set', content=c)
    if name == 'isdisjoint':
      i = self._setop('intersection', c, self.keys_of(I, st, args[0]))
      return t.eq(t.length(i), ZERO)
    return t.lost('set.' + name)

  def keys_of(self, I, st, v):
    return I.content(st, v)

  def ext_method(self, I, st, r, name, args, kw):
    o = I.obj(st, r)
    ctor, state = I.getc(st, r, 'ctor'), I.getc(st, r, 'state')
    pa = tuple(self.arr(I, st, a) for a in args)
    pk = {k: self.arr(I, st, v) for k, v in kw.items()}
    node = None
    if isinstance(o.info, ClassInfo):
      c, node = o.info.find(name)
    if node is not None:
      pa, pk = I.normal_args(node, pa, pk, method=True) if False else \
          I.normal_args(st, node, pa, pk, method=True)
      pk = dict(pk)
    else:
      pa, pk = by_position(METHODS.get(name, ()), pa, pk)
    if ctor.op == 'app' and ctor.args[0] in ('new:numpy.random.default_rng',
                                             'new:numpy.random.RandomState'):
      return self.sample(I, st, 'rng.', name, pa, pk, (ctor,), r)
    kws = tuple(sorted(pk.items()))
    if name == '__class__':
      return ctor
    if name in OBSERVERS or self.pure_method(I, o, name):
      I.may_raise(st, name)
      return mk('app', name, (ctor, state) + pa, kws,
                ty=RET.get(name))
    if name in ('sample_y',):
      pk = dict(pk)
      if len(pa) == 3:
        pk['random_state'] = pa[2]
        pa = pa[:2]
      if len(pa) == 1 and 'n_samples' not in pk:
        pa += (ONE,)
      pk.setdefault('random_state', ZERO)
      rs = pk.get('random_state', t.NONE)
      if I.obj(st, rs) is not None and I.obj(st, rs).kind == 'ext':
        pk['random_state'] = I.getc(st, rs, 'ctor')
      return self.draw(I, st, 'sample_y', (ctor, state) + pa, pk, rs)
    if name == 'predict' or name == 'predict_proba':
      return mk('app', name, (ctor, state) + pa, kws, ty=RET.get(name))
    I.event(st, 'call', obj=r, name=name, args=pa, kw=dict(kws),
            state=state, ctor=ctor)
    I.may_raise(st, name)
    I.setc(st, r, 'state', mk('app', 'upd:' + name, (state,) + pa, kws))
    for comp in list(o.comps):
      if comp.startswith('attr:'):
        I.setc(st, r, comp, mk('app', 'get:' + comp[5:],
                               (ctor, I.getc(st, r, 'state')), ()))
    if name == 'fit' and o.info is None:
      return r
    return mk('app', 'res:' + name, (ctor, state) + pa, kws, ty=RET.get(name))

  def pure_method(self, I, o, name):
    """Whether a package method of an opaque object writes nothing."""
    if not isinstance(o.info, ClassInfo):
      return False
    return self.class_pure(I, o.info, name)

  def class_pure(self, I, cls, name):
    memo = getattr(I, '_pure', None)
    if memo is None:
      memo = I._pure = {}
    key = (cls.qual, name)
    if key in memo:
      return memo[key]
    import effects
    memo[key] = True
    r = True
    for c in [cls] + I.prog.subclasses(cls):
      k, m = c.find(name)
      if m is not None and effects.writes_self(I.prog, c, name):
        r = False
    memo[key] = r
    return r

  def abstract_method(self, I, st, r, name, args, kw):
    """A method of an input object of which only the type is known."""
    pa = tuple(self.arr(I, st, a) for a in args)
    pk = {k: self.arr(I, st, v) for k, v in kw.items()}
    cls = r.ty[1] if isinstance(r.ty, tuple) and r.ty[0] == 'cls' else None
    node = cls.find(name)[1] if cls else None
    rty = None
    if node is not None:
      pa, pk = I.normal_args(st, node, pa, pk, method=True)
      pk = dict(pk)
      rty = RET.get(name) or None
      if rty is None:
        a = I.prog.annotation(cls.find(name)[0].module, node.returns)
        rty = a if a not in ('arr',) else a
    elif cls is None:
      pa, pk = by_position(METHODS.get(name, ()), pa, pk)
    kws = tuple(sorted(pk.items()))
    fam = I.ost(st)
    state = t.select(fam, r)
    rty = RET.get(name, rty)
    if name == 'k_fold' or name == 'subsample':
      res = self.draw(I, st, name, (r, state) + pa, dict(kws))
      return res
    pure = name in OBSERVERS and name != 'generate'
    if cls is not None and node is not None and name not in MUTATORS and \
        not pure:
      pure = self.class_pure(I, cls, name)
    if cls is not None and cls.name == 'DataGenerator' or name == 'generate':
      res = mk('callres', I.ordinal(('meth', name, r, pa, kws)),
               mk('xmeth', r, name), pa, kws, tuple(I.loop_tmps))
      I.event(st, 'call', obj=r, name=name, args=pa, kw=dict(kws), result=res)
      I.may_raise(st, name)
      ty = rty
      ed = [c for c in I.prog.classes.values() if c.name == 'ExpData']
      if ed:
        ty = ('cls', ed[0])
        if ed[0] not in I.opaque:
          return I.symbolic(st, ty, None, base=res)
        return mk('callres', *res.args) if res.ty == ty else self._typed(res, ty)
      return res
    if pure:
      I.may_raise(st, name)
      return mk('app', name, (r, state) + pa, kws, ty=rty)
    I.event(st, 'call', obj=r, name=name, args=pa, kw=dict(kws), state=state)
    I.may_raise(st, name)
    new = mk('app', 'upd:' + name, (state,) + pa, kws)
    st.fams['ost'] = t.store(fam, r, new)
    return mk('app', 'res:' + name, (r, state) + pa, kws, ty=rty)

  def _typed(self, x, ty):
    x.ty = ty
    return x

  def array_method(self, I, st, x, name, args, kw):
    pa = [self.arr(I, st, a) for a in args]
    pk = {k: self.arr(I, st, v) for k, v in kw.items()}
    x = self.arr_of(x)
    if x.op in ('mod', 'func', 'class'):
      return None
    if name == 'dot':
      return self.dot(x, pa[0])
    if name == 'transpose' and not pa:
      return self.transpose(x)
    if name in ('sum', 'mean', 'var', 'std', 'min', 'max', 'any', 'all', 'prod',
                'argmin', 'argmax', 'cumsum', 'clip', 'argsort', 'round'):
      return self.external(I, st, 'numpy.' + name, [x] + pa, pk)
    if name in ('flatten', 'ravel'):
      return self.flatten(x, *pa, **pk)
    if name == 'copy':
      return x
    if name == 'tolist':
      return I.new_list(st, t.recat('list', x)) if x.op in ('seq', 'map') else x
    if name == 'item':
      return x if not pa else t.idx(x, pa[0])
    if name == 'astype':
      return self.astype(x, *pa)
    if name == 'reshape':
      return self.reshape(x, pa, pk)
    if name == 'tobytes':
      return mk('app', 'tobytes', (x,), ())
    if name in ('keys', 'values', 'items') and not pa:
      if name == 'keys':
        return mk('app', 'keys', (x,), ())
      if name == 'values':
        k = tmp('k', ty='int')
        ks = mk('app', 'keys', (x,), ())
        return t.mkmap('list', t.length(ks), TRUE, t.idx(x, t.idx(ks, k)), k)
      k = tmp('k', ty='int')
      ks = mk('app', 'keys', (x,), ())
      return t.mkmap('list', t.length(ks), TRUE,
                     seq('tuple', [t.idx(ks, k), t.idx(x, t.idx(ks, k))]), k)
    if name == 'copy':
      return x
    if name == 'get' and pa:
      return ITE(t.member(pa[0], x), t.idx(x, pa[0]),
                 pa[1] if len(pa) > 1 else NONE)
    return None

  def reshape(self, x, pa, pk):
    if len(pa) == 1 and pa[0].op == 'seq':
      pa = list(pa[0].args[1])
    if len(pa) == 2 and pa[0] is num(-1) and pa[1] is ONE and x.ty == 'arr1':
      return self.hcat([x])
    if len(pa) == 1 and pa[0] is num(-1) and set(pk) <= {'order'}:
      return self.flatten(x, **pk)
    return t.app('reshape', x, *pa, ty='arr2' if len(pa) == 2 else None, **pk)

  # ------------------------------------------------------------------- builtins

  def builtin(self, I, st, name, args, kw):
    f = getattr(self, 'b_' + name, None)
    if f is not None:
      return f(I, st, args, kw)
    if name in ('print',):
      return NONE
    if name.startswith('object.'):
      return NONE
    if name.endswith(('Error', 'Exception', 'Warning')):
      return mk('excval', name)
    return t.app('builtin:' + name, *[I.snap(st, a) for a in args],
                 **{k: I.snap(st, v) for k, v in kw.items()})

  def seqv(self, I, st, v):
    """The elements that iterating a value yields."""
    return I.content(st, v)

  def b_len(self, I, st, args, kw):
    v = args[0]
    if v.op == 'ite':
      return I.split(st, v, lambda s, x: self.b_len(I, s, [x], kw))
    k = I.kind(st, v)
    if k == 'inst':
      c, m = I.obj(st, v).info.find('__len__')
      if m is None:
        return t.lost('len')
      return I.call(st, mk('bound', I.mkfunc(c.module, m, None, c), v), [], {})
    if isinstance(v.ty, tuple) and v.ty[0] == 'cls':
      c = v.ty[1]
      return mk('app', 'get:n_units', (v, t.select(I.ost(st), v)), (), ty='int')
    c = I.content(st, v)
    if c.op == 'app' and c.args[0] == 'shape':
      return self.ndim(c.args[1][0])
    if c.op == 'hcat':
      return self.rows(c)
    if k == 'set' and not self.distinct(c):
      return t.app('nunique', c, ty='int')
    return t.length(c)

  def distinct(self, c):
    """Whether the elements of c are known to differ from each other."""
    if c.op == 'seq':
      xs = c.args[1]
      return len(xs) < 2 or len(set(xs)) == len(xs) and (
          all(x.op in ('num', 'str', 'none', 'enum') for x in xs) or
          all(x.op == 'ref' or isinstance(x.ty, tuple) for x in xs))
    if isinstance(c.ty, tuple) and c.ty[0] == 'list':
      return isinstance(c.ty[1], tuple) and c.ty[1][0] == 'cls'
    if c.op == 'map':
      k = t.tmp('k', ty='int')
      x = t.inst(c, k, 3)
      return x is k or x.op == 'idx' and x.args[1] is k and self.distinct(
          x.args[0])
    return c.op == 'app' and c.args[0] == 'range'

  def b_range(self, I, st, args, kw):
    if len(args) == 1:
      return self.range_(ZERO, args[0])
    return self.range_(*args)

  def b_zip(self, I, st, args, kw):
    if len(args) == 1 and args[0].op == 'star':
      # the columns of rows that have a known number of entries
      c = args[0].args[0]
      if c.op != 'seq':
        k = tmp('k', ty='int')
        row = t.inst(c, k, 3) if c.op == 'map' else None
        if row is not None and row.op == 'seq':
          return seq('list', [
              t.recat('tuple', self.map_seq(c, lambda x, j=j: x.args[1][j]))
              for j in range(len(row.args[1]))])
    return self.zip_([self.seqv(I, st, a) for a in args])

  def b_enumerate(self, I, st, args, kw):
    start = args[1] if len(args) > 1 else kw.get('start', ZERO)
    return self.enumerate_(self.seqv(I, st, args[0]), start)

  def b_sum(self, I, st, args, kw):
    v = self.seqv(I, st, args[0])
    r = t.total(v)
    if len(args) > 1:
      r = t.add(r, args[1])
    elif 'start' in kw:
      r = t.add(r, kw['start'])
    return r

  def _ext(self, which, I, st, args, kw):
    if len(args) == 1:
      c = t.recat('list', I.snap(st, args[0]))
      r = t.app(which, c, ty='num')
      if 'key' in kw:
        return t.app(which + 'by', c, self.keyfn(I, st, kw['key'], c))
      if 'default' in kw:
        return ITE(t.eq(t.length(c), ZERO), kw['default'], r)
      return r
    return t.extremum(which, [I.snap(st, a) for a in args])

  def keyfn(self, I, st, f, c):
    """The sequence of the keys of the elements."""
    if f.op == 'xmeth':
      return self.map_seq(c, lambda x: I.call(st, f, [x], {}))
    return self.map_seq(c, lambda x: I.call(st, f, [x], {}))

  def b_min(self, I, st, args, kw):
    return self._ext('min', I, st, args, kw)

  def b_max(self, I, st, args, kw):
    return self._ext('max', I, st, args, kw)

  def b_any(self, I, st, args, kw):
    return self.quantify('any', self.seqv(I, st, args[0]),
                         lambda x: I.truthv(st, x))

  def b_all(self, I, st, args, kw):
    return self.quantify('all', self.seqv(I, st, args[0]),
                         lambda x: I.truthv(st, x))

  def b_abs(self, I, st, args, kw):
    return self.external(I, st, 'numpy.abs', args, kw)

  def b_int(self, I, st, args, kw):
    if not args:
      return ZERO
    v = args[0]
    if v.op == 'num':
      return num(int(v.args[0]))
    if t.type_of(v) == 'int' or t.intlike(v) and not t.is_vector(v):
      return v
    return t.app('int', v, ty='int')

  def b_float(self, I, st, args, kw):
    if not args:
      return ZERO
    v = args[0]
    if v.op == 'str' and v.args[0] in ('inf', 'nan', '-inf', '+inf'):
      return {'inf': t.INF, '+inf': t.INF, '-inf': t.neg(t.INF),
              'nan': t.NAN}[v.args[0]]
    return v

  def b_bool(self, I, st, args, kw):
    if not args:
      return FALSE
    return I.truthv(st, args[0])

  def b_str(self, I, st, args, kw):
    if not args:
      return string('')
    return self.to_str(I, st, I.snap(st, args[0]))

  def b_list(self, I, st, args, kw):
    if not args:
      return I.alloc(st, 'list', content=seq('list', []))
    return I.new_list(st, self.seqv(I, st, args[0]))

  def b_tuple(self, I, st, args, kw):
    if not args:
      return seq('tuple', [])
    return t.recat('tuple', self.seqv(I, st, args[0]))

  def b_set(self, I, st, args, kw):
    c = self.seqv(I, st, args[0]) if args else seq('list', [])
    return I.alloc(st, 'set', content=t.recat('list', c))

  b_frozenset = b_set

  def b_dict(self, I, st, args, kw):
    r = I.new_dict(st, [])
    if args:
      v = args[0]
      if I.kind(st, v) == 'dict' or I.kind(st, v) is None and v.op in ('sym',
                                                                       'app'):
        self.dict_update(I, st, r, v)
      else:
        c = I.content(st, v)
        if c.op == 'seq':
          for x in c.args[1]:
            I.dict_set(st, r, t.idx(x, ZERO), t.idx(x, ONE))
        else:
          self.run_loop(I, st, r, v, 'fill')
    for k, v in kw.items():
      I.dict_set(st, r, string(k), v)
    return r

  def b_sorted(self, I, st, args, kw):
    c = t.recat('list', self.seqv(I, st, args[0]))
    if 'key' in kw:
      return I.new_list(st, t.app('sortedby', c, self.keyfn(I, st, kw['key'], c)))
    return I.new_list(st, t.app('sorted', c, **{
        k: v for k, v in kw.items()}))

  def b_reversed(self, I, st, args, kw):
    c = self.seqv(I, st, args[0])
    if c.op == 'seq':
      return seq('list', list(reversed(c.args[1])))
    return t.app('reversed', c)

  def b_isinstance(self, I, st, args, kw):
    o = I.obj(st, args[0])
    c = args[1]
    if o is not None and o.kind == 'inst' and c.op == 'class':
      return t.boolean(I.prog.classes[c.args[0]] in o.info.mro())
    if args[0] is NONE:
      return FALSE
    ty = args[0].ty
    if c.op == 'class' and c.args[0] in I.prog.classes and t.is_cls(ty):
      k = I.prog.classes[c.args[0]]
      if k in ty[1].mro():
        return TRUE
      if not any(x.is_subclass(k) for x in [ty[1]] + I.prog.subclasses(ty[1])):
        return FALSE
    return t.batom('isinstance', I.snap(st, args[0]), I.snap(st, c))

  def b_map(self, I, st, args, kw):
    cs = [self.seqv(I, st, a) for a in args[1:]]
    if len(cs) == 1:
      return self.map_loop(I, st, cs[0], lambda s, x: I.call(s, args[0], [x], {}))
    z = self.zip_(cs)
    return self.map_loop(I, st, z, lambda s, x: I.call(
        s, args[0], [t.idx(x, num(i)) for i in range(len(cs))], {}))

  def map_loop(self, I, st, c, f):
    """A map over a sequence, run as a loop with its effects."""
    import ast
    acc = I.alloc(st, 'list', content=seq('list', []))
    fid = I.new_frame(st, None, None, None, None)
    target = ast.Name('x', ast.Store())

    def body(s):
      v = f(s, s.frames[fid]['x'])
      cc = I.getc(s, acc, 'content')
      I.setc(s, acc, 'content', t.cat('list', [cc, seq('list', [v])]))
      from interp import Outs
      o = Outs()
      o.fall = s
      return o

    r = I.loop_seq(st, fid, target, c, body)
    if r.fall is not None and r.fall is not st:
      st.take(r.fall)
    st.frames.pop(fid, None)
    return acc

  def b_filter(self, I, st, args, kw):
    c = self.seqv(I, st, args[1])
    k = tmp('k', ty='int')
    n, g, e = self.nge(c)
    if c.op == 'seq':
      r = seq('list', [])
      for x in c.args[1]:
        g1 = I.truthv(st, I.call(st, args[0], [x], {}))
        r = ITE(g1, t.cat('list', [r, seq('list', [x])]), r)
      return r
    g1 = I.truthv(st, I.call(st, args[0], [e(k)], {}))
    return t.mkmap('list', n, And(g(k), g1), e(k), k)

  def b_round(self, I, st, args, kw):
    return t.app('round', *args)

  def b_slice(self, I, st, args, kw):
    a = list(args)
    if kw or not 1 <= len(a) <= 3:
      return t.lost('slice')
    if len(a) == 1:
      a = [NONE] + a
    return t.mkslice(*a, *[NONE] * (3 - len(a)))

  def b_iter(self, I, st, args, kw):
    o = I.obj(st, args[0])
    if len(args) == 1 and (o is not None and o.kind == 'list' and o.info != 'iter'
                           or args[0].op == 'seq'):
      r = I.new_list(st, I.content(st, args[0]))
      st.heap[r.args[0]].info = 'iter'
      return r
    return args[0]

  def b_type(self, I, st, args, kw):
    o = I.obj(st, args[0])
    if o is not None and o.kind == 'inst':
      return mk('class', o.info.qual)
    return t.app('type', I.snap(st, args[0]))

  def b_getattr(self, I, st, args, kw):
    if args[1].op == 'str':
      o = I.obj(st, args[0])
      n = args[1].args[0]
      if len(args) > 2 and o is not None and o.kind == 'inst' and not (
          n in o.comps or o.info.find(n)[1] is not None):
        return args[2]
      from interp import filled
      x = I.getattr(st, args[0], n)
      return filled(x, lambda: args[2]) if len(args) > 2 else x
    return t.lost('getattr')

  def b_setattr(self, I, st, args, kw):
    if args[1].op != 'str':
      raise AnalysisError('setattr with a computed name')
    I.setattr(st, args[0], args[1].args[0], args[2])
    return NONE

  def b_hasattr(self, I, st, args, kw):
    o = I.obj(st, args[0])
    if o is not None and o.kind == 'inst' and args[1].op == 'str':
      n = args[1].args[0]
      if o.info.find(n)[1] is not None or any(n in k.attrs for k in o.info.mro()):
        return t.TRUE
      x = o.comps.get(n)
      if x is None or x.op != 'ite':
        return t.boolean(x is not None)
      from interp import assigned
      return assigned(t.restrict(x, st.pc))
    return t.batom('hasattr', I.snap(st, args[0]), args[1])

  def b_next(self, I, st, args, kw):
    c = self.seqv(I, st, args[0])
    o = I.obj(st, args[0])
    if o is not None and o.info == 'iter':
      n = t.length(c)
      more = t.lt(t.ZERO, n)
      if more is t.FALSE and len(args) > 1:
        return args[1]
      if more is not t.TRUE:
        return t.lost('next of an iterator')
      return I.call(st, I.getattr(st, args[0], 'pop'), [t.ZERO], {})
    if c.op == 'seq' and c.args[1]:
      return c.args[1][0]
    d = args[1] if len(args) > 1 else None
    k = tmp('k', ty='int')
    n, g, e = self.nge(c)
    q = t.mkany(n, g(k), k)
    v = mk('app', 'first', (n, I.close1(k, g(k)), I.close1(k, e(k))), ())
    return v if d is None else ITE(q, v, d)

  # ---------------------------------------------------------- external functions

  ALIAS = {
      'math.sqrt': 'numpy.sqrt', 'math.log': 'numpy.log',
      'math.exp': 'numpy.exp', 'math.isnan': 'numpy.isnan',
      'math.isinf': 'numpy.isinf', 'math.ceil': 'numpy.ceil',
      'math.floor': 'numpy.floor', 'numpy.absolute': 'numpy.abs',
      'math.fabs': 'numpy.abs', 'numpy.asarray': 'numpy.array',
      'numpy.asanyarray': 'numpy.array', 'numpy.amin': 'numpy.min',
      'numpy.amax': 'numpy.max', 'numpy.matmul': 'numpy.dot',
      'numpy.eye': 'numpy.identity', 'numpy.average': 'numpy.mean',
      'numpy.atleast_1d': 'numpy.array', 'numpy.ascontiguousarray': 'numpy.array',
      'numpy.remainder': 'numpy.mod', 'numpy.ravel': 'numpy.flatten',
      'numpy.multiply': 'numpy.multiply', 'sklearn.base.clone': 'sklearn.clone',
      'operator.mul': 'numpy.multiply', 'numpy.invert': 'numpy.logical_not',
  }

  def external(self, I, st, d, args, kw):
    d = self.ALIAS.get(d, d)
    if d.startswith(IGNORED):
      return NONE
    if d.startswith('numpy.random.') or d.startswith('random.'):
      return self.random(I, st, d, args, kw)
    if d.startswith('numpy.'):
      f = getattr(self, 'n_' + d[6:].replace('.', '_'), None)
      if f is not None:
        a = [x if x.op == 'star' else self.arr(I, st, x) for x in args]
        k = {n: self.arr(I, st, v) for n, v in kw.items()}
        for n in NP_PARAMS.get(d[6:], '').split()[len(a):]:
          if n not in k:
            break
          a.append(k.pop(n))
        return f(I, st, a, k)
    if d == 'collections.defaultdict':
      r = I.new_dict(st, [])
      o = st.heap[r.args[0]]
      o.info = args[0] if args else None
      if args:
        self.default_family(I, st, r, args[0])
      return r
    if d == 'collections.Counter' and not kw and len(args) < 2:
      r = I.new_dict(st, [])
      st.heap[r.args[0]].info = mk('builtin', 'int')
      if args:
        self.run_loop(I, st, r, args[0], 'count')
      return r
    if d == 'collections.OrderedDict':
      return self.b_dict(I, st, args, kw)
    if d == 'functools.partial':
      return mk('partial', args[0], tuple(args[1:]), tuple(sorted(kw.items())))
    if d in ('copy.copy', 'copy.deepcopy'):
      return self.copy(I, st, args[0], d.endswith('deepcopy'))
    if d == 'itertools.product':
      its = [I.content(st, a) for a in args]
      n = kw.get('repeat')
      if set(kw) <= {'repeat'} and (n is None or n.op == 'num' and n.args[0] <= 12):
        its = its * int(n.args[0] if n is not None else 1)
        its = [seq('list', [string(c) for c in a.args[0]]) if a.op == 'str' else a
               for a in its]
        total = 1
        for a in its:
          total *= len(a.args[1]) if a.op == 'seq' else 1000
        if total <= 512:
          return seq('list', [seq('tuple', list(x)) for x in itertools.product(
              *[a.args[1] for a in its])])
        return mk('app', 'product', tuple(I.snap(st, a) for a in its), ())
      return mk('app', 'product', tuple(I.snap(st, a) for a in args),
                tuple(sorted((k, I.snap(st, v)) for k, v in kw.items())))
    if d == 'itertools.chain':
      return t.cat('list', [t.recat('list', I.content(st, a)) for a in args])
    if d == 'itertools.chain.from_iterable':
      c = I.content(st, args[0])
      if c.op == 'seq':
        return t.cat('list', [t.recat('list', I.content(st, a))
                              for a in c.args[1]])
    if d == 'sklearn.clone':
      a = args[0]
      o = I.obj(st, a)
      if o is not None and o.kind == 'ext':
        ctor = I.getc(st, a, 'ctor')
      else:
        ctor = mk('app', 'clone', (I.snap(st, a),), ())
      return I.alloc(st, 'ext', None, ctor=ctor, state=mk('app', 'fresh', (), ()))
    if d.startswith('sklearn.') and d.split('.')[-1][0].isupper():
      pa = tuple(self.arr(I, st, a) for a in args)
      pk = {k: self.arr(I, st, v) for k, v in kw.items()}
      pa, pk = by_position(CTORS.get(d.split('.')[-1], ()), pa, pk)
      pk = tuple(sorted(pk.items()))
      return I.alloc(st, 'ext', None, ctor=mk('app', 'new:' + d, pa, pk),
                     state=mk('app', 'fresh', (), ()))
    if d == 'scipy.stats.norm.ppf' or d == 'scipy.stats.norm.isf':
      q = args[0] if args else kw.get('q')
      if len(args) <= 1 and not set(kw) - {'q'}:
        return self.elementwise(
            lambda x: self.norm_ppf(x if d.endswith('ppf') else t.sub(ONE, x)),
            self.arr(I, st, q))
    if d in ('scipy.stats.chi2.ppf', 'scipy.stats.chi2.isf'):
      a = list(args)
      df = a[1] if len(a) > 1 else kw.get('df')
      q = a[0] if a else kw.get('q')
      if df is not None and q is not None:
        return self.elementwise(
            lambda x: t.app('call:scipy.stats.chi2.ppf', x if d.endswith('ppf')
                            else t.sub(ONE, x), df, ty='num'),
            self.arr(I, st, q))
    if d == 'scipy.special.expit':
      x = self.arr(I, st, args[0])
      return self.elementwise(
          lambda y: t.div(ONE, t.add(ONE, t.app('exp', t.neg(y)))), x)
    pa = [self.arr(I, st, a) for a in args]
    pk = {k: self.arr(I, st, v) for k, v in kw.items()}
    I.may_raise(st, d)
    if d.split('.')[-1][:1].isupper() and not d.startswith('numpy.'):
      return I.alloc(st, 'ext', None, ctor=mk('app', 'new:' + d, tuple(pa),
                                              tuple(sorted(pk.items()))),
                     state=mk('app', 'fresh', (), ()))
    return t.app('call:' + d, *pa, **pk)

  def norm_ppf(self, q):

    @t.lift
    def go(q):
      p = t.to_poly(q)
      if p.get((), 0) >= Fraction(1, 2):
        if q is HALF:
          return ZERO
        return t.neg(t.app('call:scipy.stats.norm.ppf', t.sub(ONE, q), ty='num'))
      return t.app('call:scipy.stats.norm.ppf', q, ty='num')

    return go(q)

  def copy(self, I, st, v, deep):
    o = I.obj(st, v)
    if o is None:
      return v
    comps = {n: I.getc(st, v, n) for n in o.comps}
    if deep:
      comps = {n: self.copy(I, st, x, True) for n, x in comps.items()}
    return I.alloc(st, o.kind, o.info, **comps)

  # random draws

  def draw(self, I, st, name, pa, pk, of=None):
    kws = tuple(sorted(pk.items()))
    u = I.ordinal(('draw', name, tuple(pa), kws, of))
    ty = DRAW_TY.get(name.split('.')[-1])
    r = mk('draw', u, name, tuple(pa), kws, tuple(I.loop_tmps),
           ty=ty(pa, pk) if ty else None)
    I.event(st, 'draw', name=name, args=tuple(pa), kw=dict(kws), result=r)
    I.may_raise(st, name)
    return r

  SIG = {
      'choice': ['a', 'size', 'replace', 'p'],
      'permutation': ['x'], 'normal': ['loc', 'scale', 'size'],
      'uniform': ['low', 'high', 'size'], 'binomial': ['n', 'p', 'size'],
      'multivariate_normal': ['mean', 'cov', 'size'],
      'randint': ['low', 'high', 'size'], 'integers': ['low', 'high', 'size'],
      'standard_normal': ['size'], 'shuffle': ['x'], 'seed': ['seed'],
      'default_rng': ['seed'], 'RandomState': ['seed'],
      'random': ['size'], 'exponential': ['scale', 'size'],
  }
  DEFAULTS = {'normal': {'loc': ZERO, 'scale': ONE},
              'uniform': {'low': ZERO, 'high': ONE}}

  def rand_args(self, name, pa, pk):
    """All arguments by name; the defaults and a size of None are dropped."""
    sig = self.SIG.get(name)
    pk = dict(pk)
    if sig is None:
      return tuple(pa), pk
    for n, v in zip(sig, pa):
      pk[n] = v
    for n, v in self.DEFAULTS.get(name, {}).items():
      pk.setdefault(n, v)
    if pk.get('size') is NONE:
      del pk['size']
    return tuple(pa[len(sig):]), pk

  def random(self, I, st, d, args, kw):
    name = d.split('.')[-1]
    pa = tuple(self.arr(I, st, a) for a in args)
    pk = {k: self.arr(I, st, v) for k, v in kw.items()}
    if d in ('numpy.random.default_rng', 'numpy.random.RandomState'):
      seed = pa[0] if pa else pk.get('seed', NONE)
      r = I.alloc(st, 'ext', None, ctor=mk('app', 'new:' + d, (seed,), ()),
                  state=mk('app', 'fresh', (), ()))
      I.event(st, 'newrng', seed=seed, result=r)
      return r
    if name == 'seed':
      I.event(st, 'seed', args=pa)
      return NONE
    return self.sample(I, st, d[:-len(name)], name, pa, pk)

  def sample(self, I, st, prefix, name, pa, pk, first=(), of=None):
    """A draw under the canonical name of its distribution."""
    if name in ('randn', 'rand'):
      pk = {'size': pa[0] if len(pa) == 1 else seq('tuple', pa)} if pa else {}
      pa, name = (), 'random' if name == 'rand' else 'standard_normal'
    name = {'random_sample': 'random', 'ranf': 'random'}.get(name, name)
    pa, pk = self.rand_args(name, pa, pk)
    z = pk.get('size')
    if z is not None and z.op == 'seq':
      pk['size'] = z.args[1][0] if len(z.args[1]) == 1 else seq('tuple', z.args[1])
    loc, scale = ZERO, ONE
    if name == 'normal' and t.is_scalar(pk['loc']) and t.is_scalar(pk['scale']):
      name, loc, scale = 'standard_normal', pk.pop('loc'), pk.pop('scale')
    elif name == 'uniform' and t.is_scalar(pk['low']) and t.is_scalar(pk['high']):
      loc = pk.pop('low')
      name, scale = 'random', t.sub(pk.pop('high'), loc)
    r = self.draw(I, st, prefix + name, tuple(first) + tuple(pa), pk, of)
    if scale is not ONE:
      r = t.mul(scale, r)
    return r if loc is ZERO else t.add(loc, r)

  # numpy

  def n_array(self, I, st, a, k):
    if a[0].op == 'map' and a[0].args[2] is TRUE:
      x = t.inst(a[0], tmp(ty='int'), 3)
      if x is t.inst(a[0], tmp(ty='int'), 3) and t.is_scalar(x):
        return self.full(a[0].args[1], x, k.get('dtype'))
    if 'dtype' in k and not (a[0].op == 'app' and a[0].args[0] == 'full'):
      return self.astype(a[0], k['dtype'])
    return a[0]

  def astype(self, x, *a):
    if len(a) == 1 and x.op == 'seq' and a[0] is mk('builtin', 'int') and all(
        y.op == 'num' and y.args[0].denominator == 1 for y in x.args[1]):
      return x
    return t.app('astype', x, *a, ty=x.ty)

  def n_sqrt(self, I, st, a, k):
    return self.elementwise(t.sqrt, a[0])

  def n_square(self, I, st, a, k):
    return t.mul(a[0], a[0])

  def n_power(self, I, st, a, k):
    return t.power(a[0], a[1])

  def n_multiply(self, I, st, a, k):
    return t.mul(a[0], a[1])

  def n_add(self, I, st, a, k):
    return t.add(a[0], a[1])

  def n_subtract(self, I, st, a, k):
    return t.sub(a[0], a[1])

  def n_divide(self, I, st, a, k):
    return t.div(a[0], a[1])

  def n_negative(self, I, st, a, k):
    return t.neg(a[0])

  def n_abs(self, I, st, a, k):
    return self.elementwise(
        lambda x: num(abs(x.args[0])) if x.op == 'num' else t.app(
            'abs', x, ty=x.ty), a[0])

  def n_log(self, I, st, a, k):
    if len(a) > 1 or k:
      return t.app('log', *a, **k)
    return self.ew('log', a[0])

  def n_log1p(self, I, st, a, k):
    return self.ew('log', t.add(ONE, a[0]))

  def n_exp(self, I, st, a, k):
    return self.ew('exp', a[0])

  def n_ceil(self, I, st, a, k):
    return self.ew('ceil', a[0])

  def n_floor(self, I, st, a, k):
    return self.ew('floor', a[0])

  def n_mod(self, I, st, a, k):
    return self.mod(a[0], a[1])

  def _pred(self, name, x):

    def f(y):
      if y.op == 'num':
        return FALSE
      if y is t.NAN:
        return t.boolean(name == 'isnan')
      if y is t.INF or y is t.neg(t.INF):
        return t.boolean(name == 'isinf')
      if t.is_bool(y):
        return FALSE
      if is_arr(y) and not t.is_scalar(y):
        return t.app(name, y, ty=y.ty or 'arr')
      return t.batom(name, y)

    return self.elementwise(f, x)

  def n_isnan(self, I, st, a, k):
    return self._pred('isnan', a[0])

  def n_isinf(self, I, st, a, k):
    return self._pred('isinf', a[0])

  def n_isfinite(self, I, st, a, k):
    x, y = self._pred('isnan', a[0]), self._pred('isinf', a[0])
    return t.bmap(self.logical('or', x, y), Not)

  def n_any(self, I, st, a, k):
    if k or len(a) > 1:
      return t.app('anyaxis', *a, **k)
    return self.quantify('any', a[0])

  def n_all(self, I, st, a, k):
    if k or len(a) > 1:
      return t.app('allaxis', *a, **k)
    return self.quantify('all', a[0])

  def n_logical_not(self, I, st, a, k):
    return self.invert(a[0])

  def n_logical_and(self, I, st, a, k):
    return self.logical('and', a[0], a[1])

  def n_logical_or(self, I, st, a, k):
    return self.logical('or', a[0], a[1])

  def n_equal(self, I, st, a, k):
    return t.eq(a[0], a[1])

  def _axis(self, a, k):
    k = dict(k)
    ax = a[1] if len(a) > 1 else k.pop('axis', None)
    if ax is NONE:
      ax = None
    return ax, k

  def n_mean(self, I, st, a, k):
    ax, k = self._axis(a, k)
    if k or ax is not None and not (ax is ZERO and a[0].ty == 'arr1'):
      return t.app('meanaxis', *a, **k)
    return t.mean(a[0])

  def n_var(self, I, st, a, k):
    ax, k = self._axis(a, k)
    if k.get('ddof') is ZERO:
      k.pop('ddof')
    if k or ax is not None:
      return t.app('var', a[0], axis=ax or NONE, **k)
    return t.var(a[0])

  def n_std(self, I, st, a, k):
    ax, k = self._axis(a, k)
    if k or ax is not None:
      return t.app('std', a[0], axis=ax or NONE, **k)
    return t.sqrt(t.var(a[0]))

  def n_sum(self, I, st, a, k):
    ax, k = self._axis(a, k)
    if ax is ZERO and not k and a[0].op in ('map', 'seq', 'cat'):
      return t.total(t.recat('list', a[0]))
    if k or ax is not None and not (ax is ZERO and a[0].ty == 'arr1'):
      return t.app('sumaxis', a[0], axis=ax or NONE, **k)
    return t.total(a[0])

  def n_count_nonzero(self, I, st, a, k):
    return t.total(a[0])

  def n_cumsum(self, I, st, a, k):
    x = a[0]
    if x.op == 'seq':
      out, s = [], ZERO
      for e in x.args[1]:
        s = t.add(s, e)
        out.append(s)
      return seq('array', out)
    n, g, e = self.nge(x)
    j, i = tmp('k', ty='int'), tmp('k', ty='int')
    if g(j) is TRUE and not k and len(a) == 1:
      return t.mkmap('array', n, TRUE, t.mksum(t.add(i, ONE), e(j), j), i)
    return t.app('cumsum', *a, **k)

  def _mm(self, which, a, k):
    ax, k = self._axis(a, k)
    if k or ax is not None and not (ax is ZERO and a[0].ty == 'arr1'):
      return t.app(which + 'axis', *a, **k)
    return t.app(which, t.recat('list', a[0]), ty='num')

  def n_min(self, I, st, a, k):
    return self._mm('min', a, k)

  def n_max(self, I, st, a, k):
    return self._mm('max', a, k)

  def n_nanmin(self, I, st, a, k):
    return t.app('nanmin', a[0], ty='num')

  def n_argmin(self, I, st, a, k):
    return t.app('argmin', t.recat('list', a[0]), ty='int')

  def n_argmax(self, I, st, a, k):
    return t.app('argmax', t.recat('list', a[0]), ty='int')

  def n_clip(self, I, st, a, k):
    lo = a[1] if len(a) > 1 else k.get('a_min', k.get('min', NONE))
    hi = a[2] if len(a) > 2 else k.get('a_max', k.get('max', NONE))
    return self.clip(a[0], lo, hi)

  def clip(self, x, lo, hi):
    if lo is NONE:
      return self.pairwise('minimum', x, hi)
    if hi is NONE:
      return self.pairwise('maximum', x, lo)

    def one(y):
      if all(t.is_scalar(z) for z in (y, lo, hi)):
        return t.extremum('min', [t.extremum('max', [y, lo]), hi])
      return t.app('clip', y, lo, hi, ty='num' if t.is_scalar(y) else y.ty)

    return self.elementwise(one, x)

  def pairwise(self, which, x, y):
    """Elementwise minimum or maximum."""
    w = which[:3]
    if t.is_scalar(x) and t.is_scalar(y):
      for p, q in ((x, y), (y, x)):
        if p.op == ('max2' if w == 'min' else 'min2') and q not in p.args[0] and \
            len(p.args[0]) == 2 and False:
          pass
      return t.extremum(w, [x, y])
    other = 'maximum' if w == 'min' else 'minimum'
    for p, q in ((x, y), (y, x)):
      if p.op == 'app' and p.args[0] == other and t.is_scalar(q):
        v = [z for z in p.args[1] if not t.is_scalar(z)]
        s = [z for z in p.args[1] if t.is_scalar(z)]
        if len(v) == 1 and len(s) == 1:
          lo, hi = (s[0], q) if w == 'min' else (q, s[0])
          return self.clip(v[0], lo, hi)
    r = t._arith2(x, y, lambda a, b: self.pairwise(which, a, b))
    if r is not None:
      return r
    a, b = sorted((x, y), key=lambda z: z.id)
    ty = [z.ty for z in (x, y) if not t.is_scalar(z)]
    return t.app(which, a, b, ty=ty[0] if len(ty) == 1 else x.ty or y.ty)

  def n_minimum(self, I, st, a, k):
    return self.pairwise('minimum', a[0], a[1])

  def n_maximum(self, I, st, a, k):
    return self.pairwise('maximum', a[0], a[1])

  def n_where(self, I, st, a, k):
    if len(a) == 3:
      if self.is_array(a[1]) != self.is_array(a[2]):
        r = self.bounded(*a)
        if r is not None:
          return r
      if t.is_bool(a[0]) :
        return ITE(a[0], a[1], a[2])
      c = a[0]
      if c.op == 'map' and c.args[2] is TRUE:
        i = tmp('k', ty='int')
        at = lambda x: x if t.is_scalar(x) else t.idx(x, i)
        return t.mkmap('array', c.args[1], TRUE,
                       ITE(t.truth(t.inst(c, i, 3)), at(a[1]), at(a[2])), i)
      if c.op == 'vnot':
        return t.app('where', c.args[0], a[2], a[1])
      return t.app('where', *a)
    c = a[0]
    if c.op == 'map' and c.args[2] is TRUE:
      i = tmp('k', ty='int')
      return seq('tuple', [t.mkmap('array', c.args[1],
                                   t.truth(t.inst(c, i, 3)), i, i)])
    return seq('tuple', [t.app('nonzero', c)])

  def n_compress(self, I, st, a, k):
    if k.get('axis', NONE) is not ZERO and a[1].ty != 'arr1':
      return t.app('call:numpy.compress', *a, **k)
    return t.idx(a[1], a[0])

  def n_array_split(self, I, st, a, k):
    x = a[0]
    return t.app('call:numpy.array_split', *a, **k,
                 ty=('list', x.ty) if x.ty in ARRAY_TYS else None)

  def n_split(self, I, st, a, k):
    x, at = a[0], a[1]
    if not k and len(a) == 2 and x.op == 'seq' and at.op == 'seq' and all(
        y.op == 'num' for y in at.args[1]):
      cuts = [None] + [int(y.args[0]) for y in at.args[1]] + [None]
      return seq('list', [seq('array', x.args[1][i:j])
                          for i, j in zip(cuts, cuts[1:])])
    return t.app('call:numpy.split', *a, **k,
                 ty=('list', x.ty) if x.ty in ARRAY_TYS else None)

  def n_flatnonzero(self, I, st, a, k):
    return self.n_where(I, st, a, k).args[1][0]

  def n_nonzero(self, I, st, a, k):
    return self.n_where(I, st, a, k)

  def n_arange(self, I, st, a, k):
    if len(a) == 1:
      return t.recat('array', self.range_(ZERO, a[0]))
    return t.recat('array', self.range_(*a))

  def _shape(self, s):
    return seq('tuple', s.args[1]) if s.op == 'seq' else s

  def n_zeros(self, I, st, a, k):
    return self.full(self._shape(a[0] if a else k['shape']), ZERO, k.get('dtype'))

  def n_ones(self, I, st, a, k):
    return self.full(self._shape(a[0] if a else k['shape']), ONE, k.get('dtype'))

  def n_full(self, I, st, a, k):
    return self.full(self._shape(a[0]),
                     a[1] if len(a) > 1 else k['fill_value'], k.get('dtype'))

  def n_empty(self, I, st, a, k):
    sh = self._shape(a[0])
    return mk('app', 'empty', (sh,), (), ty='arr2' if sh.op == 'seq' and
              len(sh.args[1]) == 2 else 'arr1')

  def _like(self, x, v):
    if x.ty == 'arr1':
      return self.full(t.length(x), v)
    return t.app('full_like', x, v, ty=x.ty)

  def n_diff(self, I, st, a, k):
    axis = k.get('axis', t.num(-1))

    @t.lift
    def go(x):
      if len(a) == 1 and set(k) <= {'axis'} and axis in (t.ONE, t.num(-1)):
        if x.op == 'hcat' and len(x.args[0]) > 1 and not any(
            t.wide(b) for b in x.args[0]):
          c = x.args[0]
          return self.hcat([t.sub(v, u) for u, v in zip(c, c[1:])])
        if t.is_full(x) and x.args[1][0].op == 'seq' and len(
            x.args[1][0].args[1]) == 2:
          n, m = x.args[1][0].args[1]
          v = x.args[1][1]
          return self.full(t.seq('tuple', [n, t.sub(m, ONE)]), t.sub(v, v))
      return t.app('call:numpy.diff', x, *a[1:], ty=x.ty, **k)

    return go(a[0])

  def n_zeros_like(self, I, st, a, k):
    return self._like(a[0], ZERO)

  def n_ones_like(self, I, st, a, k):
    return self._like(a[0], ONE)

  def n_full_like(self, I, st, a, k):
    return self._like(a[0], a[1])

  def n_identity(self, I, st, a, k):
    return t.app('eye', a[0], ty='arr2')

  def n_dot(self, I, st, a, k):
    return self.dot(a[0], a[1])

  def n_transpose(self, I, st, a, k):
    return self.transpose(a[0])

  def n_flatten(self, I, st, a, k):
    return self.flatten(*a, **k)

  def n_ndim(self, I, st, a, k):
    return self.ndim(a[0])

  def n_shape(self, I, st, a, k):
    return self.shape(a[0])

  def n_linalg_inv(self, I, st, a, k):
    return t.app('inv', a[0], ty='arr2')

  def n_linalg_det(self, I, st, a, k):
    return t.app('call:numpy.linalg.det', a[0], ty='num')

  def n_linalg_eig(self, I, st, a, k):
    return seq('tuple', [t.app('eigvals', a[0], ty='arr1'),
                         t.app('eigvecs', a[0], ty='arr2')])

  def n_linalg_eigvals(self, I, st, a, k):
    return t.app('eigvals', a[0], ty='arr1')

  def n_linalg_slogdet(self, I, st, a, k):
    d = t.app('call:numpy.linalg.det', a[0], ty='num')
    return seq('tuple', [t.app('sign', d, ty='num'), t.app('log', d, ty='num')])

  def n_column_stack(self, I, st, a, k):
    for g, v in t.leaves(a[0]):
      if v.op == 'seq' and not v.args[1]:
        I.throw(st, g, 'ValueError')
        a = [t.restrict(a[0], t.Not(g))] if g is not t.TRUE else [
            seq('list', [ZERO])]
    return self.column_stack(a[0])

  def n_concatenate(self, I, st, a, k):
    ax = a[1] if len(a) > 1 else k.get('axis', ZERO)
    if ax is ZERO:
      if a[0].op == 'seq':
        return t.cat('array', list(a[0].args[1]))
      return t.app('concatenate', a[0])
    return self.column_stack(a[0])

  def n_vstack(self, I, st, a, k):
    if a[0].op == 'seq' and all(x.ty == 'arr2' for x in a[0].args[1]):
      return t.cat('array', list(a[0].args[1]))
    return a[0]

  def n_hstack(self, I, st, a, k):
    if a[0].op == 'seq' and any(x.ty == 'arr2' for x in a[0].args[1]):
      return self.hcat(list(a[0].args[1]))
    if a[0].op == 'seq':
      return t.cat('array', list(a[0].args[1]))
    return t.app('hstack', a[0])

  def n_stack(self, I, st, a, k):
    ax = a[1] if len(a) > 1 else k.get('axis', ZERO)
    if ax in (ONE, num(-1)):
      return self.column_stack(a[0])
    return a[0]

  def n_append(self, I, st, a, k):
    if len(a) == 2 and (k.get('axis', ZERO) is ZERO):
      b = a[1] if not t.is_scalar(a[1]) else seq('array', [a[1]])
      return t.cat('array', [a[0], b])
    return t.app('append', *a, **k)

  def n_insert(self, I, st, a, k):
    if len(a) == 3 and a[1] is ZERO and not k:
      b = a[2] if not t.is_scalar(a[2]) else seq('array', [a[2]])
      return t.cat('array', [b, a[0]])
    return t.app('insert', *a, **k)

  def n_delete(self, I, st, a, k):
    ax = a[2] if len(a) > 2 else k.get('axis', NONE)
    x = I.arrof(st, a[0]) if hasattr(I, 'arrof') else a[0]
    if ax in (NONE, ZERO) and t.is_scalar(a[1]) and not t.is_bool(a[1]) and (
        x.op in ('map', 'seq', 'cat') or x.ty == 'arr1'):
      i = a[1]
      if i.op == 'num' and i.args[0] < 0:
        i = t.add(t.length(x), i)
      j = t.tmp()
      return t.mkmap('array', t.length(x), Not(t.eq(j, i)), t.idx(x, j), j)
    return t.app('delete', a[0], a[1], ax, ty=a[0].ty)

  def n_reshape(self, I, st, a, k):
    return self.reshape(a[0], a[1:], k)

  def n_tile(self, I, st, a, k):
    return t.app('tile', a[0], a[1], ty='arr2' if a[1].op == 'seq' and
                 len(a[1].args[1]) == 2 else None)

  def n_diag(self, I, st, a, k):
    return t.app('diag', a[0])

  def n_meshgrid(self, I, st, a, k):
    if len(a) != 2 or set(k) - {'indexing'} or any(x.ty == 'arr2' for x in a):
      return t.app('meshgrid', *a, **k)
    return I.new_list(st, seq('list', [
        t.app('mesh', num(i), *a, ty='arr2', **k) for i in (0, 1)]))

  def n_linspace(self, I, st, a, k):
    return t.app('linspace', *a, **k)

  def n_sort(self, I, st, a, k):
    return t.app('sorted', t.recat('list', a[0]), **k, ty='arr1')

  def n_sign(self, I, st, a, k):
    return self.ew('sign', a[0])

  def index_ext(self, I, st, d, i):
    """np.r_[...] and np.c_[...]."""
    i = I.snap(st, i)
    parts = list(i.args[1]) if i.op == 'seq' and i.args[0] == 'tuple' else [i]
    parts = [self.arr_of(p) for p in parts]
    if any(p.op == 'slice' for p in parts):
      return t.app('index:' + d, *parts)
    if d == 'numpy.r_':
      return t.cat('array', [p if not t.is_scalar(p) else seq('array', [p])
                             for p in parts])
    if d == 'numpy.c_':
      return self.hcat(parts)
    return t.app('index:' + d, *parts)


def _size_ty(pa, pk):
  s = pk.get('size')
  if s is None:
    return None
  if s.op == 'seq':
    return 'arr2' if len(s.args[1]) == 2 else 'arr1'
  return 'arr1'


# leading parameters that the handlers take by position
NP_PARAMS = {
    'full': 'shape fill_value', 'zeros': 'shape', 'ones': 'shape',
    'empty': 'shape', 'clip': 'a a_min a_max', 'mean': 'a', 'sum': 'a',
    'var': 'a', 'std': 'a', 'min': 'a', 'max': 'a', 'any': 'a', 'all': 'a',
    'dot': 'a b', 'column_stack': 'tup', 'vstack': 'tup', 'hstack': 'tup',
    'stack': 'arrays', 'concatenate': 'arrays', 'delete': 'arr obj',
    'insert': 'arr obj values', 'append': 'arr values', 'array': 'object',
    'asarray': 'a', 'tile': 'A reps', 'repeat': 'a repeats', 'identity': 'n',
    'linspace': 'start stop num', 'flatten': 'a order', 'transpose': 'a', 'argmin': 'a',
    'argmax': 'a', 'sort': 'a', 'argsort': 'a', 'reshape': 'a newshape',
    'where': 'condition x y', 'array_split': 'ary indices_or_sections',
    'linalg.inv': 'a', 'linalg.det': 'a', 'linalg.eig': 'a',
    'linalg.eigvals': 'a', 'zeros_like': 'a', 'ones_like': 'a',
    'full_like': 'a fill_value', 'cumsum': 'a', 'diag': 'v',
    'compress': 'condition a', 'count_nonzero': 'a', 'ndim': 'a', 'shape': 'a',
    'nanmin': 'a',
}

DOT_TY = {('arr2', 'arr2'): 'arr2', ('arr2', 'arr1'): 'arr1',
          ('arr1', 'arr2'): 'arr1', ('arr1', 'arr1'): 'num'}

DRAW_TY = {
    'choice': lambda a, k: _size_ty(a, k),
    'normal': lambda a, k: _size_ty(a, k),
    'standard_normal': lambda a, k: _size_ty(a, k) or 'num',
    'random': lambda a, k: _size_ty(a, k) or 'num',
    'binomial': lambda a, k: _size_ty(a, k) or (
        k['p'].ty if 'p' in k and k['p'].ty in ('arr1', 'arr2') else None),
    'uniform': lambda a, k: _size_ty(a, k) or 'num',
    'integers': lambda a, k: _size_ty(a, k) or 'int',
    'randint': lambda a, k: _size_ty(a, k) or 'int',
    'permutation': lambda a, k: 'arr1',
    'multivariate_normal': lambda a, k: 'arr2',
    'sample_y': lambda a, k: 'arr2',
}
